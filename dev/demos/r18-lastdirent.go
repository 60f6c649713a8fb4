// pkg: erofs
// needs: a directory that fills more than one block
// breaks: names at the end of a directory block are wrong or the directory is reported as damaged
package erofs_test

import (
	"bytes"
	"fmt"
	"io/fs"
	"testing"
	"testing/fstest"
	"time"

	"github.com/dpeckett/archivefs/erofs"
)

type zzBuf struct{ b []byte }

func (z *zzBuf) WriteAt(p []byte, off int64) (int, error) {
	if n := int(off) + len(p); n > len(z.b) {
		z.b = append(z.b, make([]byte, n-len(z.b))...)
	}
	return copy(z.b[off:], p), nil
}

func TestZZDemo(t *testing.T) {
	src := fstest.MapFS{".": {Mode: fs.ModeDir | 0o755}}
	for i := 0; i < 600; i++ {
		src[fmt.Sprintf("file%04d", i)] = &fstest.MapFile{Data: []byte("x"), Mode: 0o644, ModTime: time.Unix(1000000000, 5)}
	}
	var z zzBuf
	if err := erofs.Create(&z, src); err != nil {
		t.Fatal(err)
	}
	z.b = append(z.b, make([]byte, 4096+(4096-len(z.b)%4096)%4096)...)
	fsys, err := erofs.Open(bytes.NewReader(z.b))
	if err != nil {
		t.Fatal(err)
	}
	ents, err := fs.ReadDir(fsys, ".")
	if err != nil {
		t.Fatal(err)
	}
	for _, e := range ents {
		if _, ok := src[e.Name()]; !ok {
			t.Errorf("unknown name %q", e.Name())
		}
	}
	if len(ents) != 600 {
		t.Errorf("%d entries", len(ents))
	}
}
