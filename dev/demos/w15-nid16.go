// pkg: erofs
// needs: more than two megabytes of metadata
// breaks: inodes are written on top of each other
package erofs_test

import (
	"bytes"
	"fmt"
	"io/fs"
	"testing"
	"testing/fstest"
	"time"

	"github.com/dpeckett/archivefs/erofs"
)

type zzBuf struct{ b []byte }

func (z *zzBuf) WriteAt(p []byte, off int64) (int, error) {
	if n := int(off) + len(p); n > len(z.b) {
		z.b = append(z.b, make([]byte, n-len(z.b))...)
	}
	copy(z.b[off:], p)
	return len(p), nil
}

func zzImage(t *testing.T, src fs.FS) *erofs.Filesystem {
	z := &zzBuf{}
	if err := erofs.Create(z, src); err != nil {
		t.Fatal(err)
	}
	z.b = append(z.b, make([]byte, 8192)...)
	fsys, err := erofs.Open(bytes.NewReader(z.b))
	if err != nil {
		t.Fatal(err)
	}
	return fsys
}

func TestZZDemo(t *testing.T) {
	src := fstest.MapFS{}
	for i := 0; i < 3000; i++ {
		src[fmt.Sprintf("f%05d", i)] = &fstest.MapFile{Data: bytes.Repeat([]byte{byte(i), byte(i >> 8)}, 450), Mode: 0o644, ModTime: time.Unix(1, 0)}
	}
	fsys := zzImage(t, src)
	for n, f := range src {
		b, err := fs.ReadFile(fsys, n)
		if err != nil || !bytes.Equal(b, f.Data) {
			t.Fatalf("%s: %v, %d bytes of %d", n, err, len(b), len(f.Data))
		}
	}
}
