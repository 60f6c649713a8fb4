// pkg: tarfs
// needs: a file whose name ends in a dot
// breaks: the file is archived under another name
package tarfs_test

import (
	"archive/tar"
	"bytes"
	"testing"

	"github.com/dpeckett/archivefs/memfs"
	"github.com/dpeckett/archivefs/tarfs"
)

func TestZZDemo(t *testing.T) {
	m := memfs.New()
	if err := m.WriteFile("v1.", []byte("x"), 0o644); err != nil {
		t.Fatal(err)
	}
	var b bytes.Buffer
	if err := tarfs.Create(&b, m); err != nil {
		t.Fatal(err)
	}
	for r := tar.NewReader(&b); ; {
		h, err := r.Next()
		if err != nil {
			t.Fatal(err)
		}
		if h.Name == "v1." {
			return
		}
	}
}
