package props

import (
	"errors"
	"io"
	"net/http"
	"os"
)

// memFS is a file system in memory that records what is opened.
type memFS struct {
	files  map[string]string
	opened []string
}

// Open implements http.FileSystem.
func (m *memFS) Open(name string) (http.File, error) {
	m.opened = append(m.opened, name)
	t, ok := m.files[name]
	if !ok {
		return nil, errors.New("no such file: " + name)
	}
	return &memFile{text: t}, nil
}

type memFile struct {
	text   string
	at     int
	closed bool
}

func (f *memFile) Close() error { f.closed = true; return nil }
func (f *memFile) Read(p []byte) (int, error) {
	if f.at >= len(f.text) {
		return 0, io.EOF
	}
	n := copy(p, f.text[f.at:])
	f.at += n
	return n, nil
}
func (f *memFile) Seek(off int64, whence int) (int64, error) { return 0, errors.New("no seek") }
func (f *memFile) Readdir(count int) ([]os.FileInfo, error)  { return nil, errors.New("no directory") }
func (f *memFile) Stat() (os.FileInfo, error)                { return nil, errors.New("no stat") }
