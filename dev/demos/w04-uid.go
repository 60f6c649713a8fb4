// pkg: arfs
// needs: an owner above 999999
// breaks: another owner is recorded instead of an error
package arfs_test

import (
	"bytes"
	"fmt"
	"syscall"
	"testing"
	"testing/fstest"
	"time"

	"github.com/dpeckett/archivefs/arfs"
)

func TestZZDemo(t *testing.T) {
	when := time.Unix(5, 0)
	src := fstest.MapFS{"a": {Data: []byte("hello"), Mode: 0o644, ModTime: when, Sys: &syscall.Stat_t{Uid: 1000005, Gid: 77}}}
	var buf bytes.Buffer
	if err := arfs.Create(&buf, src); err != nil {
		return
	}
	h := buf.String()[8:68]
	want := fmt.Sprintf("%-16s%-12d%-6d%-6d%-8s%-10d`\n", "a", when.Unix(), 1000005, 77, "0000644", 5)
	if h != want {
		t.Fatalf("%q instead of %q", h, want)
	}
}
