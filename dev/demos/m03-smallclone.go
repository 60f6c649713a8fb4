// pkg: memfs
// needs: the caller changes a buffer without spare capacity after writing a file from it
// breaks: the stored file changes with the buffer
package memfs_test

import (
	"io/fs"
	"testing"

	"github.com/dpeckett/archivefs/memfs"
)

func TestZZDemo(t *testing.T) {
	fsys := memfs.New()
	b := []byte("hello")[:5:5]
	if err := fsys.WriteFile("f", b, 0o644); err != nil {
		t.Fatal(err)
	}
	b[0] = 'J'
	got, err := fs.ReadFile(fsys, "f")
	if err != nil || string(got) != "hello" {
		t.Fatalf("%q %v", got, err)
	}
}
