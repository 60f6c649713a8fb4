// pkg: tarfs
// needs: an empty source tree
// breaks: the archive has no trailer, so other tools reject it as truncated
package tarfs_test

import (
	"bytes"
	"testing"
	"testing/fstest"

	"github.com/dpeckett/archivefs/tarfs"
)

func TestZZDemo(t *testing.T) {
	var buf bytes.Buffer
	if err := tarfs.Create(&buf, fstest.MapFS{}); err != nil {
		t.Fatal(err)
	}
	if buf.Len() < 1024 {
		t.Fatalf("no trailer: %d bytes", buf.Len())
	}
}
