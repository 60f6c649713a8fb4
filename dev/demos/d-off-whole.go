// pkg: erofs
// needs: a directory of more than one block
// breaks: the names of all blocks are said to begin behind the entries of the whole directory
package erofs_test

import (
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"testing/fstest"

	"github.com/dpeckett/archivefs/erofs"
)

func TestZZDemo(t *testing.T) {
	name := func(i, length int) string {
		s := fmt.Sprintf("f%04d", i)
		return s + strings.Repeat("x", length-len(s))
	}
	var names []string
	for i := 0; i < 150; i++ {
		names = append(names, name(i, 40))
	}
	src := fstest.MapFS{}
	for _, n := range names {
		src[n] = &fstest.MapFile{Data: []byte(n), Mode: 0o644}
	}
	f, err := os.Create(filepath.Join(t.TempDir(), "image"))
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	if err := erofs.Create(f, src); err != nil {
		t.Fatal(err)
	}
	img, err := erofs.Open(f)
	if err != nil {
		t.Fatal(err)
	}
	entries, err := fs.ReadDir(img, ".")
	if err != nil {
		t.Fatal(err)
	}
	if len(entries) != len(names) {
		t.Fatalf("%d entries, want %d", len(entries), len(names))
	}
	for i, e := range entries {
		if e.Name() != names[i] {
			t.Fatalf("entry %d is %q, want %q", i, e.Name(), names[i])
		}
		got, err := fs.ReadFile(img, names[i])
		if err != nil || string(got) != names[i] {
			t.Fatalf("%q has %q, %v", names[i], got, err)
		}
	}
	_ = name
}
