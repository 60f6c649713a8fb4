// pkg: erofs
// needs: a file whose group has another number than its owner
// breaks: owner and group are exchanged
package erofs_test

import (
	"bytes"
	"io/fs"
	"syscall"
	"testing"
	"testing/fstest"
	"time"

	"github.com/dpeckett/archivefs/erofs"
)

type zzBuf struct{ b []byte }

func (z *zzBuf) WriteAt(p []byte, off int64) (int, error) {
	if n := int(off) + len(p); n > len(z.b) {
		z.b = append(z.b, make([]byte, n-len(z.b))...)
	}
	copy(z.b[off:], p)
	return len(p), nil
}

func zzImage(t *testing.T, src fs.FS) *erofs.Filesystem {
	z := &zzBuf{}
	if err := erofs.Create(z, src); err != nil {
		t.Fatal(err)
	}
	z.b = append(z.b, make([]byte, 8192)...)
	fsys, err := erofs.Open(bytes.NewReader(z.b))
	if err != nil {
		t.Fatal(err)
	}
	return fsys
}

func TestZZDemo(t *testing.T) {
	src := fstest.MapFS{"a": {Data: []byte("x"), Mode: 0o644, ModTime: time.Unix(5, 0), Sys: &syscall.Stat_t{Uid: 7, Gid: 9}}}
	z := &zzBuf{}
	if err := erofs.Create(z, src); err != nil {
		t.Fatal(err)
	}
	z.b = append(z.b, make([]byte, 8192)...)
	img, err := erofs.OpenImage(bytes.NewReader(z.b))
	if err != nil {
		t.Fatal(err)
	}
	root, err := img.Inode(0)
	if err != nil {
		t.Fatal(err)
	}
	if err := root.IterDirents(func(name string, typ uint8, nid uint64) error {
		if name != "a" {
			return nil
		}
		ino, err := img.Inode(nid)
		if err != nil {
			return err
		}
		if ino.UID() != 7 || ino.GID() != 9 {
			t.Errorf("%d:%d", ino.UID(), ino.GID())
		}
		return nil
	}); err != nil {
		t.Fatal(err)
	}
}
