// pkg: tarfs
// needs: an entry whose name starts with .wh.
// breaks: the entry can be opened but is not listed
package tarfs_test

import (
	"archive/tar"
	"bytes"
	"io/fs"
	"strings"
	"testing"

	"github.com/dpeckett/archivefs/tarfs"
)

func TestZZDemo(t *testing.T) {
	var b bytes.Buffer
	w := tar.NewWriter(&b)
	for _, n := range []string{"d/.wh.a", "d/b"} {
		h := &tar.Header{Name: n, Mode: 0o755, Typeflag: tar.TypeReg}
		if strings.HasSuffix(n, "/") {
			h.Typeflag = tar.TypeDir
		}
		if err := w.WriteHeader(h); err != nil {
			t.Fatal(err)
		}
	}
	if err := w.Close(); err != nil {
		t.Fatal(err)
	}
	fsys, err := tarfs.Open(bytes.NewReader(b.Bytes()))
	if err != nil {
		t.Fatal(err)
	}
	if got := names(t, fsys); got != ".wh.a b" {
		t.Errorf("listed: %s", got)
	}
}

func names(t *testing.T, fsys fs.FS) string {
	entries, err := fs.ReadDir(fsys, "d")
	if err != nil {
		t.Fatal(err)
	}
	var out []string
	for _, e := range entries {
		out = append(out, e.Name())
	}
	return strings.Join(out, " ")
}
