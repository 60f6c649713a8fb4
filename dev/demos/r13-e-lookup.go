// pkg: erofs
// needs: a missing name that sorts behind the first name of a directory block
// breaks: the error does not wrap fs.ErrNotExist
package erofs_test

import (
	"bytes"
	"errors"
	"io/fs"
	"testing"
	"testing/fstest"

	"github.com/dpeckett/archivefs/erofs"
)

type zzBuf struct{ b []byte }

func (z *zzBuf) WriteAt(p []byte, off int64) (int, error) {
	if n := int(off) + len(p); n > len(z.b) {
		z.b = append(z.b, make([]byte, n-len(z.b))...)
	}
	return copy(z.b[off:], p), nil
}

func TestZZDemo(t *testing.T) {
	src := fstest.MapFS{".": {Mode: fs.ModeDir | 0o755}, "b": {Data: []byte("x"), Mode: 0o644}}
	var z zzBuf
	if err := erofs.Create(&z, src); err != nil {
		t.Fatal(err)
	}
	z.b = append(z.b, make([]byte, (4096-len(z.b)%4096)%4096)...)
	fsys, err := erofs.Open(bytes.NewReader(z.b))
	if err != nil {
		t.Fatal(err)
	}
	for _, n := range []string{"a", "c", "zz"} {
		if _, err := fsys.Stat(n); !errors.Is(err, fs.ErrNotExist) {
			t.Errorf("%s: %v", n, err)
		}
	}
}
