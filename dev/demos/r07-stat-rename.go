// pkg: tarfs
// needs: a Stat through a symlink followed by a Stat (or listing) of the target
// breaks: a Stat through one name changes the name later operations report for the entry
package tarfs_test

import (
	"archive/tar"
	"bytes"
	"io/fs"
	"testing"

	"github.com/dpeckett/archivefs/tarfs"
)

func TestZZDemo(t *testing.T) {
	var buf bytes.Buffer
	tw := tar.NewWriter(&buf)
	tw.WriteHeader(&tar.Header{Name: "dir/target", Typeflag: tar.TypeReg, Mode: 0o644})
	tw.WriteHeader(&tar.Header{Name: "link", Typeflag: tar.TypeSymlink, Linkname: "dir/target"})
	tw.Close()
	fsys, err := tarfs.Open(bytes.NewReader(buf.Bytes()))
	if err != nil {
		t.Fatal(err)
	}
	names := func() string {
		ents, err := fs.ReadDir(fsys, "dir")
		if err != nil || len(ents) != 1 {
			t.Fatal(err, ents)
		}
		fi, err := ents[0].Info()
		if err != nil {
			t.Fatal(err)
		}
		return ents[0].Name() + " " + fi.Name()
	}
	before := names()
	if _, err := fs.Stat(fsys, "link"); err != nil {
		t.Fatal(err)
	}
	if after := names(); after != before {
		t.Fatalf("%q became %q", before, after)
	}
}
