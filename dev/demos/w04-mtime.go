// pkg: arfs
// needs: a modification time after 2038
// breaks: the modification time is cut to 32 bits
package arfs_test

import (
	"bytes"
	"fmt"
	"syscall"
	"testing"
	"testing/fstest"
	"time"

	"github.com/dpeckett/archivefs/arfs"
)

func TestZZDemo(t *testing.T) {
	when := time.Unix(5000000000, 0)
	src := fstest.MapFS{"a": {Data: []byte("hello"), Mode: 0o644, ModTime: when, Sys: &syscall.Stat_t{Uid: 5, Gid: 77}}}
	var buf bytes.Buffer
	if err := arfs.Create(&buf, src); err != nil {
		t.Fatal(err)
	}
	h := buf.String()[8:68]
	want := fmt.Sprintf("%-16s%-12d%-6d%-6d%-8s%-10d`\n", "a", when.Unix(), 5, 77, "0000644", 5)
	if h != want {
		t.Fatalf("%q instead of %q", h, want)
	}
}
