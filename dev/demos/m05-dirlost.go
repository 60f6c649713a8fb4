// pkg: memfs
// needs: a file written to the name of an existing directory that is empty
// breaks: the directory is replaced by the file
package memfs_test

import (
	"io/fs"
	"testing"

	"github.com/dpeckett/archivefs/memfs"
)

func TestZZDemo(t *testing.T) {
	fsys := memfs.New()
	if err := fsys.MkdirAll("a/b", 0o755); err != nil {
		t.Fatal(err)
	}
	if err := fsys.WriteFile("a/b", []byte("x"), 0o644); err == nil {
		t.Error("a directory was overwritten")
	}
	if fi, err := fs.Stat(fsys, "a/b"); err != nil || !fi.IsDir() {
		t.Error("the directory is lost")
	}
}
