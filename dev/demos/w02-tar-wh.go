// pkg: tarfs
// needs: a source with a file whose name starts with ".wh."
// breaks: such files are silently left out of a tar archive
package tarfs_test

import (
	"archive/tar"
	"bytes"
	"io"
	"testing"
	"testing/fstest"

	"github.com/dpeckett/archivefs/tarfs"
)

func TestZZDemo(t *testing.T) {
	var b bytes.Buffer
	if err := tarfs.Create(&b, fstest.MapFS{"d/.wh.a": {Data: []byte("y"), Mode: 0o644}}); err != nil {
		t.Fatal(err)
	}
	tr := tar.NewReader(&b)
	for {
		h, err := tr.Next()
		if err == io.EOF {
			t.Fatal("d/.wh.a was not stored")
		}
		if err != nil {
			t.Fatal(err)
		}
		if h.Name == "d/.wh.a" {
			return
		}
	}
}
