// pkg: arfs
// needs: an input whose ReadAt returns io.EOF along with the last bytes, and an archive that ends with an empty member
// breaks: the last member is missing
package arfs_test

import (
	"bytes"
	"io"
	"testing"
	"testing/fstest"

	"github.com/dpeckett/archivefs/arfs"
)

type eager struct{ *bytes.Reader }

func (e eager) ReadAt(p []byte, off int64) (int, error) {
	n, err := e.Reader.ReadAt(p, off)
	if err == nil && off+int64(n) == e.Size() {
		err = io.EOF
	}
	return n, err
}

func TestZZDemo(t *testing.T) {
	var buf bytes.Buffer
	if err := arfs.Create(&buf, fstest.MapFS{"a": {Data: []byte("abcd"), Mode: 0o644}, "b": {Mode: 0o644}}); err != nil {
		t.Fatal(err)
	}
	fsys, err := arfs.Open(eager{bytes.NewReader(buf.Bytes())})
	if err != nil {
		t.Fatal(err)
	}
	for _, n := range []string{"a", "b"} {
		if _, err := fsys.Stat(n); err != nil {
			t.Errorf("%s: %v", n, err)
		}
	}
}
