// pkg: arfs
// needs: a modification time with more than ten digits, or one that is not aligned to the left
// breaks: the modification time of a member is wrong
package arfs_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/dpeckett/archivefs/arfs"
)

func TestZZDemo(t *testing.T) {
	b := "!<arch>\n" + fmt.Sprintf("%-16s%12d%6d%6d%-8s%-10d`\n", "a", 1700000000, 100001, 200002, "100644", 2) + "xy"
	fsys, err := arfs.Open(strings.NewReader(b))
	if err != nil {
		t.Fatal(err)
	}
	fi, err := fsys.Stat("a")
	if err != nil || fi.ModTime().Unix() != 1700000000 {
		t.Fatalf("%v %v", fi, err)
	}
}
