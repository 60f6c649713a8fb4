// pkg: tarfs
// needs: a tar archive cut in the middle of a header or of a member's padding
// breaks: a truncated tar archive opens as if it was complete
package tarfs_test

import (
	"bytes"
	"testing"
	"testing/fstest"

	"github.com/dpeckett/archivefs/tarfs"
)

func TestZZDemo(t *testing.T) {
	var buf bytes.Buffer
	src := fstest.MapFS{"a": {Data: []byte("abc"), Mode: 0o644}, "b": {Data: []byte("defgh"), Mode: 0o644}}
	if err := tarfs.Create(&buf, src); err != nil {
		t.Fatal(err)
	}
	if _, err := tarfs.Open(bytes.NewReader(buf.Bytes())); err != nil {
		t.Fatal(err)
	}
	for _, n := range []int{100, 511, 513, 1300, 1500} {
		if _, err := tarfs.Open(bytes.NewReader(buf.Bytes()[:n])); err == nil {
			t.Errorf("no error although only %d bytes are left", n)
		}
	}
}
