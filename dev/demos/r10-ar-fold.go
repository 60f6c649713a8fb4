// pkg: arfs
// needs: names that differ in case
// breaks: an archive is not listed in the order of the names
package arfs_test

import (
	"bytes"
	"io/fs"
	"strings"
	"testing"
	"testing/fstest"

	"github.com/dpeckett/archivefs/arfs"
)

func TestZZDemo(t *testing.T) {
	var b bytes.Buffer
	if err := arfs.Create(&b, fstest.MapFS{"a": {Mode: 0o644}, "B": {Mode: 0o644}}); err != nil {
		t.Fatal(err)
	}
	fsys, err := arfs.Open(bytes.NewReader(b.Bytes()))
	if err != nil {
		t.Fatal(err)
	}
	if got := names(t, fsys); got != "B a" {
		t.Errorf("listed: %s", got)
	}
}

func names(t *testing.T, fsys fs.FS) string {
	entries, err := fs.ReadDir(fsys, ".")
	if err != nil {
		t.Fatal(err)
	}
	var out []string
	for _, e := range entries {
		out = append(out, e.Name())
	}
	return strings.Join(out, " ")
}
