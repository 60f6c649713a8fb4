// pkg: memfs
// needs: an operation that fails half-way (a file written over a directory), then any other on the same directory
// breaks: the lock of the directory stays held, so later operations hang
package memfs_test

import (
	"testing"
	"time"

	"github.com/dpeckett/archivefs/memfs"
)

func TestZZDemo(t *testing.T) {
	fsys := memfs.New()
	if err := fsys.MkdirAll("a/b", 0o755); err != nil {
		t.Fatal(err)
	}
	if err := fsys.WriteFile("a/b", []byte("x"), 0o644); err == nil {
		t.Fatal("wrote over a directory")
	}
	done := make(chan error)
	go func() { done <- fsys.WriteFile("a/c", []byte("x"), 0o644) }()
	select {
	case err := <-done:
		if err != nil {
			t.Fatal(err)
		}
	case <-time.After(10 * time.Second):
		t.Fatal("deadlock")
	}
}
