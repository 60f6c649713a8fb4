// pkg: tarfs
// needs: an archive with a damaged header
// breaks: opening the archive never returns
package tarfs_test

import (
	"archive/tar"
	"bytes"
	"testing"
	"time"

	"github.com/dpeckett/archivefs/tarfs"
)

func TestZZDemo(t *testing.T) {
	var buf bytes.Buffer
	tw := tar.NewWriter(&buf)
	for _, n := range []string{"a", "b"} {
		if err := tw.WriteHeader(&tar.Header{Name: n, Typeflag: tar.TypeReg, Mode: 0o644}); err != nil {
			t.Fatal(err)
		}
	}
	if err := tw.Close(); err != nil {
		t.Fatal(err)
	}
	b := buf.Bytes()
	b[512] = 'c' // the checksum of the second header is wrong now
	done := make(chan error, 1)
	go func() {
		_, err := tarfs.Open(bytes.NewReader(b))
		done <- err
	}()
	select {
	case err := <-done:
		if err == nil {
			t.Fatal("opened")
		}
	case <-time.After(20 * time.Second):
		t.Fatal("does not return")
	}
}
