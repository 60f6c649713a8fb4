// pkg: tarfs
// needs: the input fails to read while the archive is opened
// breaks: a read error is taken for the end of the archive, which opens with the rest missing
package tarfs_test

import (
	"bytes"
	"errors"
	"testing"
	"testing/fstest"

	"github.com/dpeckett/archivefs/tarfs"
)

type flaky struct {
	*bytes.Reader
	left int
}

func (f *flaky) ReadAt(p []byte, off int64) (int, error) {
	f.left--
	if f.left == 0 {
		return 0, errors.New("input/output error")
	}
	return f.Reader.ReadAt(p, off)
}

func TestZZDemo(t *testing.T) {
	var buf bytes.Buffer
	src := fstest.MapFS{"a": {Data: []byte("abc"), Mode: 0o644}, "b": {Data: []byte("defgh"), Mode: 0o644}}
	if err := tarfs.Create(&buf, src); err != nil {
		t.Fatal(err)
	}
	for n := 1; n < 1000; n++ {
		f := &flaky{bytes.NewReader(buf.Bytes()), n}
		_, err := tarfs.Open(f)
		if f.left > 0 {
			if err != nil {
				t.Fatal(err)
			}
			return
		}
		if err == nil {
			t.Fatalf("read %d failed, but the archive opens", n)
		}
	}
}
