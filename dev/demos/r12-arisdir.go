// pkg: arfs
// needs: an ar member with a directory mode and content
// breaks: IsDir contradicts Type
package arfs_test

import (
	"bytes"
	"fmt"
	"io/fs"
	"testing"

	"github.com/dpeckett/archivefs/arfs"
)

func TestZZDemo(t *testing.T) {
	var b bytes.Buffer
	b.WriteString("!<arch>\n")
	fmt.Fprintf(&b, "%-16s%-12s%-6s%-6s%-8s%-10s`\n", "d", "0", "0", "0", "40755", "2")
	b.WriteString("xy")
	fsys, err := arfs.Open(bytes.NewReader(b.Bytes()))
	if err != nil {
		t.Fatal(err)
	}
	l, err := fs.ReadDir(fsys, ".")
	if err != nil || len(l) != 1 {
		t.Fatal(l, err)
	}
	if l[0].IsDir() != l[0].Type().IsDir() {
		t.Fatalf("IsDir %v, type %v", l[0].IsDir(), l[0].Type())
	}
}
