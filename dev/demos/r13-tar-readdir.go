// pkg: tarfs
// needs: listing a directory that does not exist
// breaks: it is reported as an empty directory
package tarfs_test

import (
	"bytes"
	"errors"
	"io/fs"
	"testing"
	"testing/fstest"

	"github.com/dpeckett/archivefs/tarfs"
)

func TestZZDemo(t *testing.T) {
	var b bytes.Buffer
	if err := tarfs.Create(&b, fstest.MapFS{"d/a": {Data: []byte("y"), Mode: 0o644}}); err != nil {
		t.Fatal(err)
	}
	fsys, err := tarfs.Open(bytes.NewReader(b.Bytes()))
	if err != nil {
		t.Fatal(err)
	}
	if _, err := fsys.ReadDir("d/e"); !errors.Is(err, fs.ErrNotExist) {
		t.Fatal(err)
	}
}
