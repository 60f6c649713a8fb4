// pkg: memfs
// needs: a directory made below the name of a file
// breaks: the program crashes instead of getting an error
package memfs_test

import (
	"testing"

	"github.com/dpeckett/archivefs/memfs"
)

func TestZZDemo(t *testing.T) {
	m := memfs.New()
	if err := m.WriteFile("a", []byte("x"), 0o644); err != nil {
		t.Fatal(err)
	}
	if err := m.MkdirAll("a/b", 0o755); err == nil {
		t.Fatal("no error")
	}
}
