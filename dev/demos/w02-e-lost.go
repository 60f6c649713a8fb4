// pkg: erofs
// needs: a source with an empty directory named lost+found
// breaks: the directory is silently left out of the image
package erofs_test

import (
	"bytes"
	"io/fs"
	"testing"
	"testing/fstest"

	"github.com/dpeckett/archivefs/erofs"
)

type zzBuf struct{ b []byte }

func (z *zzBuf) WriteAt(p []byte, off int64) (int, error) {
	if n := int(off) + len(p); n > len(z.b) {
		z.b = append(z.b, make([]byte, n-len(z.b))...)
	}
	return copy(z.b[off:], p), nil
}

func TestZZDemo(t *testing.T) {
	src := fstest.MapFS{".": {Mode: fs.ModeDir | 0o755}, "lost+found": {Mode: fs.ModeDir | 0o700}, "a": {Data: []byte("x"), Mode: 0o644}}
	var z zzBuf
	if err := erofs.Create(&z, src); err != nil {
		t.Fatal(err)
	}
	z.b = append(z.b, make([]byte, (4096-len(z.b)%4096)%4096)...)
	fsys, err := erofs.Open(bytes.NewReader(z.b))
	if err != nil {
		t.Fatal(err)
	}
	for _, n := range []string{"a", "lost+found"} {
		if _, err := fs.Stat(fsys, n); err != nil {
			t.Errorf("%s: %v", n, err)
		}
	}
}
