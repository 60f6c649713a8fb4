// pkg: erofs
// needs: an image that ends inside its superblock or an inode
// breaks: a truncated structure is taken as if the missing bytes were zero
package erofs_test

import (
	"io"
	"testing"
	"testing/fstest"

	"github.com/dpeckett/archivefs/erofs"
)

type memImage struct {
	buf []byte
}

func (m *memImage) WriteAt(p []byte, off int64) (int, error) {
	if n := int(off) + len(p); n > len(m.buf) {
		m.buf = append(m.buf, make([]byte, n-len(m.buf))...)
	}
	return copy(m.buf[off:], p), nil
}

func (m *memImage) ReadAt(p []byte, off int64) (int, error) {
	if off >= int64(len(m.buf)) {
		return 0, io.EOF
	}
	n := copy(p, m.buf[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

func TestZZDemo(t *testing.T) {
	img := &memImage{}
	if err := erofs.Create(img, fstest.MapFS{"a": {Data: []byte("abc"), Mode: 0o644}, "b": {Mode: 0o644}}); err != nil {
		t.Fatal(err)
	}
	full, err := erofs.Open(img)
	if err != nil {
		t.Fatal(err)
	}
	want, err := full.Stat("b")
	if err != nil {
		t.Fatal(err)
	}
	for n := 0; n < len(img.buf); n++ {
		fsys, err := erofs.Open(&memImage{img.buf[:n]})
		if err != nil {
			continue
		}
		got, err := fsys.Stat("b")
		if err == nil && (got.Size() != want.Size() || got.Mode() != want.Mode()) {
			t.Fatalf("with only %d bytes left: %v %d", n, got.Mode(), got.Size())
		}
	}
}
