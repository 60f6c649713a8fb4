// pkg: memfs
// needs: a handle closed twice and used afterwards
// breaks: the second Close opens the handle again
package memfs_test

import (
	"errors"
	"io/fs"
	"testing"

	"github.com/dpeckett/archivefs/memfs"
)

func TestZZDemo(t *testing.T) {
	fsys := memfs.New()
	if err := fsys.WriteFile("f", []byte("x"), 0o644); err != nil {
		t.Fatal(err)
	}
	f, err := fsys.Open("f")
	if err != nil {
		t.Fatal(err)
	}
	if err := f.Close(); err != nil {
		t.Fatal(err)
	}
	if err := f.Close(); !errors.Is(err, fs.ErrClosed) {
		t.Errorf("second Close: %v", err)
	}
	if _, err := f.Read(make([]byte, 1)); !errors.Is(err, fs.ErrClosed) {
		t.Errorf("Read after Close: %v", err)
	}
}
