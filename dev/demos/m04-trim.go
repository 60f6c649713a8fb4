// pkg: memfs
// needs: a name that ends with a slash
// breaks: an invalid name is written to as if it were another name
package memfs_test

import (
	"errors"
	"io/fs"
	"testing"

	"github.com/dpeckett/archivefs/memfs"
)

func TestZZDemo(t *testing.T) {
	fsys := memfs.New()
	for _, name := range []string{"/a", "a/", "a//b", "../a", "", "/"} {
		if err := fsys.WriteFile(name, []byte("x"), 0o644); !errors.Is(err, fs.ErrInvalid) {
			t.Errorf("WriteFile(%q): %v", name, err)
		}
	}
	if l, err := fs.ReadDir(fsys, "."); err != nil || len(l) != 0 {
		t.Errorf("the tree has changed: %v %v", l, err)
	}
}
