// pkg: arfs
// needs: a member that begins more than 2 GiB into the archive
// breaks: the content of the member is taken from the wrong place
package arfs_test

import (
	"fmt"
	"io"
	"testing"

	"github.com/dpeckett/archivefs/arfs"
)

// zzBig is an archive with a member of a given size, whose content is made up.
type zzBig struct {
	head string
	size int64
	tail string
}

func (z *zzBig) ReadAt(p []byte, off int64) (int, error) {
	for i := range p {
		o := off + int64(i)
		switch {
		case o < int64(len(z.head)):
			p[i] = z.head[o]
		case o < int64(len(z.head))+z.size:
			p[i] = byte(o / 4096)
		case o < int64(len(z.head))+z.size+int64(len(z.tail)):
			p[i] = z.tail[o-int64(len(z.head))-z.size]
		default:
			return i, io.EOF
		}
	}
	return len(p), nil
}

func zzHdr(name string, size int64) string {
	return fmt.Sprintf("%-16s%-12d%-6d%-6d%-8s%-10d`\n", name, 1, 2, 3, "100644", size)
}

func TestZZDemo(t *testing.T) {
	z := &zzBig{head: "!<arch>\n" + zzHdr("a", 3<<30), size: 3 << 30, tail: zzHdr("b", 5) + "hello\n"}
	fsys, err := arfs.Open(z)
	if err != nil {
		t.Fatal(err)
	}
	f, err := fsys.Open("b")
	if err != nil {
		t.Fatal(err)
	}
	b := make([]byte, 10)
	if n, _ := io.ReadFull(f, b); string(b[:n]) != "hello" {
		t.Fatalf("%q", b[:n])
	}
}
