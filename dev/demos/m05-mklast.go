// pkg: memfs
// needs: MkdirAll of a path whose last element is an existing file
// breaks: success is reported although there is no such directory
package memfs_test

import (
	"testing"

	"github.com/dpeckett/archivefs/memfs"
)

func TestZZDemo(t *testing.T) {
	fsys := memfs.New()
	if err := fsys.MkdirAll("a", 0o755); err != nil {
		t.Fatal(err)
	}
	if err := fsys.WriteFile("a/f", []byte("x"), 0o644); err != nil {
		t.Fatal(err)
	}
	if err := fsys.MkdirAll("a/f", 0o755); err == nil {
		t.Error("MkdirAll succeeds although a file is in the way")
	}
}
