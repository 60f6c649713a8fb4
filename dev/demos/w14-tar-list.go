// pkg: tarfs
// needs: a directory with at least 64 entries
// breaks: large directories are listed in another order each time
package tarfs_test

import (
	"archive/tar"
	"bytes"
	"fmt"
	"io/fs"
	"testing"

	"github.com/dpeckett/archivefs/tarfs"
)

func TestZZDemo(t *testing.T) {
	var b bytes.Buffer
	w := tar.NewWriter(&b)
	for i := 0; i < 100; i++ {
		if err := w.WriteHeader(&tar.Header{Name: fmt.Sprintf("d/f%03d", i), Mode: 0o644, Typeflag: tar.TypeReg}); err != nil {
			t.Fatal(err)
		}
	}
	if err := w.Close(); err != nil {
		t.Fatal(err)
	}
	fsys, err := tarfs.Open(bytes.NewReader(b.Bytes()))
	if err != nil {
		t.Fatal(err)
	}
	first := ""
	for i := 0; i < 5; i++ {
		entries, err := fs.ReadDir(fsys, "d")
		if err != nil {
			t.Fatal(err)
		}
		f, err := fsys.Open("d")
		if err != nil {
			t.Fatal(err)
		}
		if df, ok := f.(fs.ReadDirFile); ok {
			if entries, err = df.ReadDir(-1); err != nil {
				t.Fatal(err)
			}
		}
		f.Close()
		names := ""
		for _, e := range entries {
			names += e.Name() + " "
		}
		if first == "" {
			first = names
		} else if names != first {
			t.Fatal("listed in different orders")
		}
	}
}
