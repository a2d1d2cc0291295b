#!/usr/bin/env python3
"""design.py: writes the "Properties" section of DESIGN.md: for each property how it is decided, and the
harnesses with their bounds as they stand in harness/props."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOW = {
"C01": ("Every type name, and lists of them, against instances of every type with free digits, letters and exponents; oracle `ref.Valid` (integrality over exact rationals).", "numbers with more than about 20 free digits or exponents beyond those listed"),
"C02": ("Limits and instances are free digits in many notations; the code's big.Rat arithmetic becomes integer constraints, so the comparison is decided for all values of the digits at once; oracle: exact comparison.", "notations not listed"),
"C03": ("Divisor and instance with free digits; oracle: exact integer divisibility after scaling. Non-linear queries are kept within what z3 decides in seconds.", "divisors with more than 3 free digits"),
"C04": ("Strings of free bytes, valid multi-byte characters included; patterns are executed as the symbolic NFA of the compiled regexp program; oracle: rune count and an independent backtracking matcher.", "longer strings, patterns beyond the listed ones (regexp itself is trusted)"),
"C05": ("items as schema or list, additionalItems, contains over arrays with free length and elements; oracle `ref`.", "arrays beyond the lengths listed"),
"C06": ("Array lengths against free limits; uniqueness of free values of every type, equal numbers in different notation, long values that differ in any one place.", "larger nesting"),
"C07": ("Members with free names against free property lists, patterns and additionalProperties; oracle `ref`.", "more members at once"),
"C08": ("required, dependencies (both forms), propertyNames and size limits over objects with free names.", "more members at once"),
"C09": ("Constants and instances are independent free values; oracle: JSON equality with exact numbers, order-insensitive objects.", "deeper nesting"),
"C10": ("Every combinator over branches whose limits are free, so that each Boolean combination of matching branches occurs; oracle: Boolean logic over `ref`.", "more branches than listed"),
"C11": ("A reference at every place of a subschema, to every kind of target, next to every sibling; oracle: the schema with the target inlined. Dangling references must fail.", "a schema that is only a reference to itself (no meaning)"),
"C12": ("Documents behind a recording HTTP stand-in identify themselves by a constant; the oracle is the RFC 3986 resolution worked out per case.", "duplicate identifiers in one document; id and $id in one schema"),
"C13": ("Every draft-dependent keyword, at every place, under every way of choosing a draft; oracle `ref.ValidDraft`.", "-"),
"C14": ("Every keyword with every value of bounded shape: refused iff the drafts' syntax forbids it; oracle `wellFormed`.", "empty lists for items/enum/type/anyOf; minItems > maxItems"),
"C15": ("The engine reports any panic, failed type assertion, nil dereference, index out of range and runaway recursion on any path; the native replay confirms it.", "self-referring schemas that consume nothing"),
"C16": ("For every reported error: the context addresses a node, value/field/details are true of it.", "the order of the errors"),
"C17": ("The set of (context, type, subject) equals that of `ref.Errors`, explanations of failed alternatives aside.", "the order of the errors"),
"C18": ("Compilation and validation run once in insertion order and once with every map iteration in an arbitrary (symbolic) order; verdict and error set must agree.", "more than about 3 members per map"),
"C19": ("Sequences of uses of one or several schemas; the instance before and after; two goroutines under the race monitor.", "more than two goroutines; data races inside the standard library"),
"C20": ("Sequences of Add/Remove/Has and validations over free names and values.", "-"),
"C21": ("Strings of free characters of every length up to the bound; oracle: hand-written recognisers.", "longer strings"),
"C22": ("Digits and single characters free inside otherwise fixed texts, and free short strings; oracle: calendar, clock, octet and group arithmetic.", "leap seconds, lower-case t and z, e-mail display names, blanks in URIs"),
"C23": ("Sequences of AddSchema/AddSchemas/Compile over free URLs and limits; no request may be made.", "-"),
"C24": ("The official metaschemas (texts in the harness) decided by `ref.ValidDraft` are the oracle for what Validate refuses.", "formats inside metaschemas only as listed"),
"C25": ("The same value or text through every loader; oracle: an independent JSON parser.", "Go values beyond the kinds listed; trailing data after reader and writer loaders"),
"C26": ("A recording file system and HTTP stand-in; statuses, bodies, names and failures are chosen symbolically.", "redirects and other behaviour of net/http"),
"C27": ("Each error type with free names and limits; the expected texts are written out.", "-"),
"C28": ("The errors of a failed alternative are compared with what the alternative reports alone.", "ranking among alternatives of unlike shapes beyond the cases stated"),
}
src = "\n".join(open(f).read() for f in sorted(glob.glob(here + "/harness/props/*.go")))
hs = {}
for m in re.finditer(r"((?:^//[^\n]*\n)+)^func H_(C\d\d)_(\w+)\(", src, re.M):
    t = " ".join(l[2:].strip() for l in m[1].splitlines())
    hs.setdefault(m[2], []).append((m[3], re.sub(r"^H_\w+:?\s*", "", t)))
out = []
for l in open(here + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    how, outside = HOW[i]
    out.append(f"### {i} {p['title']}\n\n{how}\nOutside: {outside}.\n")
    for n, t in hs.get(i, []):
        out.append(f"- `{n}`: {t}")
    out.append("")
d = open(here + "/DESIGN.md").read()
a = d.index("## Properties")
m = re.search(r"^## (?!Properties)", d[a:], re.M)
b = a + m.start() if m else len(d)
open(here + "/DESIGN.md", "w").write(d[:a] + "## Properties\n\nWritten by `tools/design.py` from the harness comments; `d` means a free digit. The costs are in the evidence files.\n\n" + "\n".join(out) + "\n" + d[b:])
