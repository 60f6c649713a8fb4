// pkg: memfs
// needs: MkdirAll through an existing file, then another operation on the directory that holds it
// breaks: the lock of the directory stays held, so later operations hang
package memfs_test

import (
	"testing"
	"time"

	"github.com/dpeckett/archivefs/memfs"
)

func TestZZDemo(t *testing.T) {
	fsys := memfs.New()
	if err := fsys.MkdirAll("a", 0o755); err != nil {
		t.Fatal(err)
	}
	if err := fsys.WriteFile("a/f", []byte("x"), 0o644); err != nil {
		t.Fatal(err)
	}
	if err := fsys.MkdirAll("a/f/g", 0o755); err == nil {
		t.Fatal("made a directory in a file")
	}
	done := make(chan error)
	go func() { done <- fsys.WriteFile("a/c", []byte("x"), 0o644) }()
	select {
	case err := <-done:
		if err != nil {
			t.Fatal(err)
		}
	case <-time.After(10 * time.Second):
		t.Fatal("deadlock")
	}
}
