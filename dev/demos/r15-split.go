// pkg: memfs
// needs: a directory with a backslash in its name
// breaks: what is in the directory cannot be reached
package memfs_test

import (
	"io/fs"
	"testing"

	"github.com/dpeckett/archivefs/memfs"
)

func TestZZDemo(t *testing.T) {
	m := memfs.New()
	if err := m.MkdirAll(`a\b`, 0o755); err != nil {
		t.Fatal(err)
	}
	if err := m.WriteFile(`a\b/c`, []byte("x"), 0o644); err != nil {
		t.Fatal(err)
	}
	if _, err := fs.Stat(m, `a\b/c`); err != nil {
		t.Fatal(err)
	}
}
