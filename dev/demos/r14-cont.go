// pkg: tarfs
// needs: a directory with the default permissions and owner, but with a modification time
// breaks: the modification time of the directory is lost
package tarfs_test

import (
	"archive/tar"
	"bytes"
	"testing"
	"time"

	"github.com/dpeckett/archivefs/tarfs"
)

func TestZZDemo(t *testing.T) {
	var b bytes.Buffer
	w := tar.NewWriter(&b)
	when := time.Unix(1700000000, 0)
	_ = w.WriteHeader(&tar.Header{Typeflag: tar.TypeDir, Name: "d/", Mode: 0o755, ModTime: when})
	_ = w.WriteHeader(&tar.Header{Typeflag: tar.TypeReg, Name: "d/f", Mode: 0o644, ModTime: when})
	_ = w.Close()
	fsys, err := tarfs.Open(bytes.NewReader(b.Bytes()))
	if err != nil {
		t.Fatal(err)
	}
	fi, err := fsys.Stat("d")
	if err != nil {
		t.Fatal(err)
	}
	if !fi.ModTime().Equal(when) {
		t.Fatal(fi.ModTime())
	}
}
