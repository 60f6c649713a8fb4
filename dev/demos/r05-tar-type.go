// pkg: tarfs
// needs: an archive with an entry of an unsupported type (contiguous file)
// breaks: the entry is silently left out
package tarfs_test

import (
	"archive/tar"
	"bytes"
	"testing"

	"github.com/dpeckett/archivefs/tarfs"
)

func TestZZDemo(t *testing.T) {
	for _, f := range []byte{tar.TypeCont, tar.TypeChar, tar.TypeBlock, tar.TypeFifo} {
		var b bytes.Buffer
		w := tar.NewWriter(&b)
		if err := w.WriteHeader(&tar.Header{Name: "a", Typeflag: f, Mode: 0o644, Format: tar.FormatUSTAR}); err != nil {
			t.Fatal(err)
		}
		if err := w.Close(); err != nil {
			t.Fatal(err)
		}
		if _, err := tarfs.Open(bytes.NewReader(b.Bytes())); err == nil {
			t.Errorf("type %q accepted", f)
		}
	}
}
