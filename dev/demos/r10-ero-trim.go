// pkg: erofs
// needs: a file named ...
// breaks: a file whose name is made of dots is not listed
package erofs_test

import (
	"io"
	"io/fs"
	"strings"
	"testing"
	"testing/fstest"

	"github.com/dpeckett/archivefs/erofs"
)

func TestZZDemo(t *testing.T) {
	img := &memImage{}
	if err := erofs.Create(img, fstest.MapFS{"d/...": {Mode: 0o644}, "d/a": {Mode: 0o644}}); err != nil {
		t.Fatal(err)
	}
	fsys, err := erofs.Open(img)
	if err != nil {
		t.Fatal(err)
	}
	if got := names(t, fsys); got != "... a" {
		t.Errorf("listed: %s", got)
	}
}

func names(t *testing.T, fsys fs.FS) string {
	entries, err := fs.ReadDir(fsys, "d")
	if err != nil {
		t.Fatal(err)
	}
	var out []string
	for _, e := range entries {
		out = append(out, e.Name())
	}
	return strings.Join(out, " ")
}

type memImage struct{ buf []byte }

func (m *memImage) WriteAt(p []byte, off int64) (int, error) {
	if n := int(off) + len(p); n > len(m.buf) {
		m.buf = append(m.buf, make([]byte, n-len(m.buf))...)
	}
	return copy(m.buf[off:], p), nil
}

func (m *memImage) ReadAt(p []byte, off int64) (int, error) {
	if off >= int64(len(m.buf)) {
		return 0, io.EOF
	}
	n := copy(p, m.buf[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}
