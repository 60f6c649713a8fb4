// pkg: memfs
// needs: a file whose name starts with .tmp
// breaks: the file can be opened but is not listed
package memfs_test

import (
	"io/fs"
	"strings"
	"testing"

	"github.com/dpeckett/archivefs/memfs"
)

func TestZZDemo(t *testing.T) {
	fsys := memfs.New()
	for _, n := range []string{".tmp1", "a"} {
		if err := fsys.WriteFile(n, nil, 0o644); err != nil {
			t.Fatal(err)
		}
	}
	if got := names(t, fsys); got != ".tmp1 a" {
		t.Errorf("listed: %s", got)
	}
}

func names(t *testing.T, fsys fs.FS) string {
	entries, err := fs.ReadDir(fsys, ".")
	if err != nil {
		t.Fatal(err)
	}
	var out []string
	for _, e := range entries {
		out = append(out, e.Name())
	}
	return strings.Join(out, " ")
}
