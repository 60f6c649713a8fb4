// pkg: erofs
// needs: a file that grows while the image is made
// breaks: more content is written than was recorded
package erofs_test

import (
	"bytes"
	"io/fs"
	"testing"
	"testing/fstest"

	"github.com/dpeckett/archivefs/erofs"
)

type zzBuf struct{ b []byte }

func (z *zzBuf) WriteAt(p []byte, off int64) (int, error) {
	if n := int(off) + len(p); n > len(z.b) {
		z.b = append(z.b, make([]byte, n-len(z.b))...)
	}
	copy(z.b[off:], p)
	return len(p), nil
}

func zzImage(t *testing.T, src fs.FS) *erofs.Filesystem {
	z := &zzBuf{}
	if err := erofs.Create(z, src); err != nil {
		t.Fatal(err)
	}
	z.b = append(z.b, make([]byte, 8192)...)
	fsys, err := erofs.Open(bytes.NewReader(z.b))
	if err != nil {
		t.Fatal(err)
	}
	return fsys
}

type zzGrow struct {
	fstest.MapFS
	opens int
}

func (g *zzGrow) Open(name string) (fs.File, error) {
	if name == "a" {
		g.opens++
		g.MapFS["a"].Data = make([]byte, 2000+1000*g.opens)
	}
	return g.MapFS.Open(name)
}

func TestZZDemo(t *testing.T) {
	src := &zzGrow{MapFS: fstest.MapFS{"a": {Data: make([]byte, 2000), Mode: 0o644}}}
	z := &zzBuf{}
	if err := erofs.Create(z, src); err == nil {
		t.Fatal("the file grew after its size was recorded, but that was not noticed")
	}
	_ = zzImage
}
