// pkg: erofs
// needs: an image (made by another tool) with a character device
// breaks: the device bit is missing from its mode
package erofs

import (
	"io/fs"
	"testing"
)

func TestZZDemo(t *testing.T) {
	ino := Inode{mode: S_IFCHR | 0o620}
	if got, want := ino.Mode(), fs.ModeDevice|fs.ModeCharDevice|0o620; got != want {
		t.Fatalf("mode %v, want %v", got, want)
	}
}
