#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = root + '/DESIGN.md'
s = open(p).read()
head = s[:s.index('## Planted bugs')]
rows = []
for i in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{i}/meta.json'))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'].replace('|', '\\|'), m['needs'].replace('|', '\\|')))
body = '''## Planted bugs

`seeded/<id>/` (written and verified by `tools/plant.py`, run by `tools/catch.sh`). Every one is caught by the quick check of the property it names
(exit 1, VIOLATION, counterexample replayed on the compiled code).

| bug | caught by | what it breaks | what it needs |
|---|---|---|---|
%s

Besides these, about 190 throw-away mutants were run through `tools/mutate.py` in four rounds (one table of small source edits per round, written from the property statements;
a mutant counts if it builds and the 21 tests pass). What the rounds taught: each miss was a value outside a harness's alphabet (long names, numbers beyond int64,
several keywords in one schema, a second use of a loader or schema), so each round added harnesses ("_mix", "_with", "_related", "_many", ...) rather than a case for the mutant.
The remaining survivors are equivalent to the original.

Behaviour-preserving edits were tried the same way: a copy of /repo in which validation.go, schema.go, schemaPool.go, schemaLoader.go, jsonLoader.go, format_checkers.go, utils.go,
result.go, jsonContext.go, errors.go, schemaType.go and draft.go are restructured (type switches, table-driven limits, helpers, sorted iteration, pairwise comparison, other standard
library functions). All 28 checks stay quiet on it; what it showed to be missing in the engine (errors.Is, regexp finders, differences of rationals, a watchdog on the solver) was added.
''' % '\n'.join(rows)
open(p, 'w').write(head + body)
