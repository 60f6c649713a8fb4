// pkg: arfs
// needs: a setuid file
// breaks: the setuid bit is lost
package arfs_test

import (
	"bytes"
	"fmt"
	"io/fs"
	"syscall"
	"testing"
	"testing/fstest"
	"time"

	"github.com/dpeckett/archivefs/arfs"
)

func TestZZDemo(t *testing.T) {
	when := time.Unix(5, 0)
	src := fstest.MapFS{"a": {Data: []byte("hello"), Mode: 0o755 | fs.ModeSetuid, ModTime: when, Sys: &syscall.Stat_t{Uid: 5, Gid: 77}}}
	var buf bytes.Buffer
	if err := arfs.Create(&buf, src); err != nil {
		t.Fatal(err)
	}
	h := buf.String()[8:68]
	want := fmt.Sprintf("%-16s%-12d%-6d%-6d%-8s%-10d`\n", "a", when.Unix(), 5, 77, "0004755", 5)
	if h != want {
		t.Fatalf("%q instead of %q", h, want)
	}
}
