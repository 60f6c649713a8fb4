// pkg: arfs
// needs: the destination fails exactly when the padding byte after an odd-sized file is written
// breaks: creating an ar archive reports success although the padding was not written
package arfs_test

import (
	"bytes"
	"errors"
	"testing"
	"testing/fstest"

	"github.com/dpeckett/archivefs/arfs"
)

type failAt struct {
	buf  bytes.Buffer
	left int
}

func (f *failAt) Write(p []byte) (int, error) {
	if len(p) > f.left {
		return 0, errors.New("no space left")
	}
	f.left -= len(p)
	return f.buf.Write(p)
}

func TestZZDemo(t *testing.T) {
	src := fstest.MapFS{"a": {Data: []byte("abc"), Mode: 0o644}, "b": {Data: []byte("defgh"), Mode: 0o644}}
	full := &failAt{left: 1 << 20}
	if err := arfs.Create(full, src); err != nil {
		t.Fatal(err)
	}
	for n := 0; n < full.buf.Len(); n++ {
		if err := arfs.Create(&failAt{left: n}, src); err == nil {
			t.Fatalf("no error although only %d of %d bytes fit", n, full.buf.Len())
		}
	}
}
