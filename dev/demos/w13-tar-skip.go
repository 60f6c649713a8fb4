// pkg: tarfs
// needs: a source with a socket
// breaks: the socket is silently left out
package tarfs_test

import (
	"bytes"
	"io/fs"
	"testing"
	"testing/fstest"

	"github.com/dpeckett/archivefs/tarfs"
)

func TestZZDemo(t *testing.T) {
	var b bytes.Buffer
	if err := tarfs.Create(&b, fstest.MapFS{"a": {Mode: fs.ModeSocket | 0o644}}); err == nil {
		t.Fatal("no error")
	}
}
