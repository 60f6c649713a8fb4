// pkg: erofs
// needs: an inline file whose inode still fits before the end of a block, but whose content does not
// breaks: inline content crosses the end of a block
package erofs_test

import (
	"bytes"
	"fmt"
	"io/fs"
	"testing"
	"testing/fstest"
	"time"

	"github.com/dpeckett/archivefs/erofs"
)

type zzBuf struct{ b []byte }

func (z *zzBuf) WriteAt(p []byte, off int64) (int, error) {
	if n := int(off) + len(p); n > len(z.b) {
		z.b = append(z.b, make([]byte, n-len(z.b))...)
	}
	copy(z.b[off:], p)
	return len(p), nil
}

func zzImage(t *testing.T, src fs.FS) *erofs.Filesystem {
	z := &zzBuf{}
	if err := erofs.Create(z, src); err != nil {
		t.Fatal(err)
	}
	z.b = append(z.b, make([]byte, 8192)...)
	fsys, err := erofs.Open(bytes.NewReader(z.b))
	if err != nil {
		t.Fatal(err)
	}
	return fsys
}

func TestZZDemo(t *testing.T) {
	src := fstest.MapFS{}
	for i := 0; i < 600; i++ {
		src[fmt.Sprintf("f%05d", i)] = &fstest.MapFile{Data: make([]byte, 1+(i*37)%1021), Mode: 0o644, ModTime: time.Unix(1, 0)}
	}
	z := &zzBuf{}
	if err := erofs.Create(z, src); err != nil {
		t.Fatal(err)
	}
	z.b = append(z.b, make([]byte, 8192)...)
	img, err := erofs.OpenImage(bytes.NewReader(z.b))
	if err != nil {
		t.Fatal(err)
	}
	root, err := img.Inode(0)
	if err != nil {
		t.Fatal(err)
	}
	if err := root.IterDirents(func(name string, typ uint8, nid uint64) error {
		ino, err := img.Inode(nid)
		if err != nil || ino.DataLayout() != erofs.InodeDataLayoutFlatInline {
			return err
		}
		p := nid * 32
		if z.b[4096+p]&1 != 0 {
			p += 64
		} else {
			p += 32
		}
		if p/4096 != (p+ino.Size()-1)/4096 {
			t.Fatalf("%s: %d bytes of inline content at %d cross a block", name, ino.Size(), p)
		}
		return nil
	}); err != nil {
		t.Fatal(err)
	}
	_ = zzImage
}
