// pkg: arfs
// needs: a source with a file whose name starts with a dot
// breaks: hidden files are silently left out of an ar archive
package arfs_test

import (
	"bytes"
	"io/fs"
	"testing"
	"testing/fstest"

	"github.com/dpeckett/archivefs/arfs"
)

func TestZZDemo(t *testing.T) {
	var b bytes.Buffer
	if err := arfs.Create(&b, fstest.MapFS{"a": {Data: []byte("x"), Mode: 0o644}, ".h": {Data: []byte("y"), Mode: 0o644}}); err != nil {
		t.Fatal(err)
	}
	fsys, err := arfs.Open(bytes.NewReader(b.Bytes()))
	if err != nil {
		t.Fatal(err)
	}
	for _, n := range []string{"a", ".h"} {
		if _, err := fs.ReadFile(fsys, n); err != nil {
			t.Errorf("%s: %v", n, err)
		}
	}
}
