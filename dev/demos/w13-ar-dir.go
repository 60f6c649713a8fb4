// pkg: arfs
// needs: a source with a directory
// breaks: the directory is silently left out
package arfs_test

import (
	"bytes"
	"testing"
	"testing/fstest"

	"github.com/dpeckett/archivefs/arfs"
)

func TestZZDemo(t *testing.T) {
	var b bytes.Buffer
	if err := arfs.Create(&b, fstest.MapFS{"d/f": {Data: []byte("x"), Mode: 0o644}}); err == nil {
		t.Fatal("no error")
	}
}
