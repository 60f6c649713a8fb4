// pkg: erofs
// needs: a modification time after 2106
// breaks: the modification time is cut to 32 bits
package erofs_test

import (
	"bytes"
	"io/fs"
	"testing"
	"testing/fstest"
	"time"

	"github.com/dpeckett/archivefs/erofs"
)

type zzBuf struct{ b []byte }

func (z *zzBuf) WriteAt(p []byte, off int64) (int, error) {
	if n := int(off) + len(p); n > len(z.b) {
		z.b = append(z.b, make([]byte, n-len(z.b))...)
	}
	copy(z.b[off:], p)
	return len(p), nil
}

func zzImage(t *testing.T, src fs.FS) *erofs.Filesystem {
	z := &zzBuf{}
	if err := erofs.Create(z, src); err != nil {
		t.Fatal(err)
	}
	z.b = append(z.b, make([]byte, 8192)...)
	fsys, err := erofs.Open(bytes.NewReader(z.b))
	if err != nil {
		t.Fatal(err)
	}
	return fsys
}

func TestZZDemo(t *testing.T) {
	when := time.Unix(5000000000, 0)
	fsys := zzImage(t, fstest.MapFS{"a": {Data: []byte("x"), Mode: 0o644, ModTime: when}})
	fi, err := fs.Stat(fsys, "a")
	if err != nil {
		t.Fatal(err)
	}
	if !fi.ModTime().Equal(when) {
		t.Fatalf("%v instead of %v", fi.ModTime(), when)
	}
}
