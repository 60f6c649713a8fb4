// pkg: erofs
// needs: a name that contains an escaped slash
// breaks: the entry that the listing shows cannot be opened
package erofs_test

import (
	"bytes"
	"io/fs"
	"os"
	"path/filepath"
	"testing"

	"github.com/dpeckett/archivefs/erofs"
	"github.com/dpeckett/archivefs/memfs"
)

func TestZZDemo(t *testing.T) {
	m := memfs.New()
	if err := m.WriteFile("x%2Fy", []byte("x"), 0o644); err != nil {
		t.Fatal(err)
	}
	f, err := os.Create(filepath.Join(t.TempDir(), "img"))
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	if err := erofs.Create(f, m); err != nil {
		t.Fatal(err)
	}
	b, err := os.ReadFile(f.Name())
	if err != nil {
		t.Fatal(err)
	}
	fsys, err := erofs.Open(bytes.NewReader(b))
	if err != nil {
		t.Fatal(err)
	}
	if _, err := fs.Stat(fsys, "x%2Fy"); err != nil {
		t.Fatal(err)
	}
}
