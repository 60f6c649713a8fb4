// pkg: tarfs
// needs: an archive with an entry below a regular file
// breaks: IsDir contradicts Type
package tarfs_test

import (
	"archive/tar"
	"bytes"
	"io/fs"
	"testing"

	"github.com/dpeckett/archivefs/tarfs"
)

func TestZZDemo(t *testing.T) {
	var b bytes.Buffer
	tw := tar.NewWriter(&b)
	tw.WriteHeader(&tar.Header{Name: "l", Linkname: "x", Typeflag: tar.TypeSymlink, Mode: 0o777})
	tw.WriteHeader(&tar.Header{Name: "x", Typeflag: tar.TypeReg, Mode: 0o644})
	tw.WriteHeader(&tar.Header{Name: "x/y", Typeflag: tar.TypeReg, Mode: 0o644})
	tw.WriteHeader(&tar.Header{Name: "x", Typeflag: tar.TypeReg, Mode: 0o644})
	tw.Close()
	fsys, err := tarfs.Open(bytes.NewReader(b.Bytes()))
	if err != nil {
		t.Fatal(err)
	}
	l, err := fs.ReadDir(fsys, ".")
	if err != nil {
		t.Fatal(err)
	}
	for _, d := range l {
		if d.IsDir() != d.Type().IsDir() {
			t.Fatalf("%s: IsDir %v, type %v", d.Name(), d.IsDir(), d.Type())
		}
	}
}
