// pkg: erofs
// needs: a read error of the image while a name is looked up in a directory
// breaks: a file whose directory cannot be read is reported as missing
package erofs_test

import (
	"errors"
	"io"
	"io/fs"
	"testing"
	"testing/fstest"

	"github.com/dpeckett/archivefs/erofs"
)

type memImage struct {
	buf  []byte
	left int
}

func (m *memImage) WriteAt(p []byte, off int64) (int, error) {
	if n := int(off) + len(p); n > len(m.buf) {
		m.buf = append(m.buf, make([]byte, n-len(m.buf))...)
	}
	return copy(m.buf[off:], p), nil
}

func (m *memImage) ReadAt(p []byte, off int64) (int, error) {
	m.left--
	if m.left == 0 {
		return 0, errors.New("input/output error")
	}
	if off >= int64(len(m.buf)) {
		return 0, io.EOF
	}
	n := copy(p, m.buf[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

func TestZZDemo(t *testing.T) {
	img := &memImage{}
	src := fstest.MapFS{"d/a": {Data: []byte("abc"), Mode: 0o644}, "d/b": {Data: []byte("abc"), Mode: 0o644}, "d/c": {Mode: 0o644}}
	if err := erofs.Create(img, src); err != nil {
		t.Fatal(err)
	}
	for n := 1; n < 1000; n++ {
		img.left = 0
		fsys, err := erofs.Open(img)
		if err != nil {
			t.Fatal(err)
		}
		img.left = n
		_, err = fsys.Stat("d/b")
		if img.left > 0 {
			if err != nil {
				t.Fatal(err)
			}
			return
		}
		if err == nil || errors.Is(err, fs.ErrNotExist) {
			t.Fatalf("read %d failed: %v", n, err)
		}
	}
}
