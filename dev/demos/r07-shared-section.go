// pkg: arfs
// needs: two handles of the same member, read alternately
// breaks: the handles share one read position, so the second one starts where the first one stopped
package arfs_test

import (
	"bytes"
	"io"
	"testing"
	"testing/fstest"

	"github.com/dpeckett/archivefs/arfs"
)

func TestZZDemo(t *testing.T) {
	var buf bytes.Buffer
	if err := arfs.Create(&buf, fstest.MapFS{"a": {Data: []byte("hello world"), Mode: 0o644}}); err != nil {
		t.Fatal(err)
	}
	fsys, err := arfs.Open(bytes.NewReader(buf.Bytes()))
	if err != nil {
		t.Fatal(err)
	}
	f1, err := fsys.Open("a")
	if err != nil {
		t.Fatal(err)
	}
	f2, err := fsys.Open("a")
	if err != nil {
		t.Fatal(err)
	}
	half := make([]byte, 5)
	if _, err := io.ReadFull(f1, half); err != nil {
		t.Fatal(err)
	}
	b, err := io.ReadAll(f2)
	if err != nil || string(b) != "hello world" {
		t.Fatalf("second handle: %q %v", b, err)
	}
}
