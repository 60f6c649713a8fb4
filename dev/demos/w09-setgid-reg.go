// pkg: erofs
// needs: a set-group-id directory
// breaks: the bit is lost in the image
package erofs_test

import (
	"io/fs"
	"os"
	"testing"
	"testing/fstest"

	"github.com/dpeckett/archivefs/erofs"
)

func TestZZDemo(t *testing.T) {
	f, err := os.Create(t.TempDir() + "/img")
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	src := fstest.MapFS{"d": {Mode: fs.ModeDir | fs.ModeSetgid | 0o2 | 0o755}, "f": {Data: []byte("x"), Mode: fs.ModeSetgid | 0o755}}
	if err := erofs.Create(f, src); err != nil {
		t.Fatal(err)
	}
	fsys, err := erofs.Open(f)
	if err != nil {
		t.Fatal(err)
	}
	for _, n := range []string{"d", "f"} {
		fi, err := fs.Stat(fsys, n)
		if err != nil {
			t.Fatal(err)
		}
		if fi.Mode() != src[n].Mode {
			t.Fatalf("%s: mode %v, want %v", n, fi.Mode(), src[n].Mode)
		}
	}
}
