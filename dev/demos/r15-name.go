// pkg: tarfs
// needs: an entry whose name ends in a tilde
// breaks: the listing reports a name that the entry does not have
package tarfs_test

import (
	"archive/tar"
	"bytes"
	"testing"

	"github.com/dpeckett/archivefs/tarfs"
)

func TestZZDemo(t *testing.T) {
	var b bytes.Buffer
	w := tar.NewWriter(&b)
	_ = w.WriteHeader(&tar.Header{Typeflag: tar.TypeReg, Name: "notes~", Mode: 0o644})
	_ = w.Close()
	fsys, err := tarfs.Open(bytes.NewReader(b.Bytes()))
	if err != nil {
		t.Fatal(err)
	}
	des, err := fsys.ReadDir(".")
	if err != nil || len(des) != 1 {
		t.Fatal(err, des)
	}
	if des[0].Name() != "notes~" {
		t.Fatal(des[0].Name())
	}
}
