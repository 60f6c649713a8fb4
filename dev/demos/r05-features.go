// pkg: erofs
// needs: an image that uses an incompatible feature whose flag is beyond bit 15
// breaks: an image that needs an unsupported feature is opened
package erofs_test

import (
	"bytes"
	"encoding/binary"
	"io"
	"io/fs"
	"testing"
	"testing/fstest"
	"time"

	"github.com/dpeckett/archivefs/erofs"
)

type zzBuf struct{ b []byte }

func (z *zzBuf) WriteAt(p []byte, off int64) (int, error) {
	if n := int(off) + len(p); n > len(z.b) {
		z.b = append(z.b, make([]byte, n-len(z.b))...)
	}
	return copy(z.b[off:], p), nil
}

func zzImage(t *testing.T) ([]byte, int64) {
	src := fstest.MapFS{".": {Mode: fs.ModeDir | 0o755}, "a": {Data: bytes.Repeat([]byte("x"), 100), Mode: 0o644, ModTime: time.Unix(1000000000, 5)}}
	var z zzBuf
	if err := erofs.Create(&z, src); err != nil {
		t.Fatal(err)
	}
	z.b = append(z.b, make([]byte, 4096+(4096-len(z.b)%4096)%4096)...)
	img, err := erofs.OpenImage(bytes.NewReader(z.b))
	if err != nil {
		t.Fatal(err)
	}
	root, err := img.Inode(img.RootNid())
	if err != nil {
		t.Fatal(err)
	}
	d, err := root.Lookup("a")
	if err != nil {
		t.Fatal(err)
	}
	sb := img.SuperBlock()
	return z.b, sb.NidToOffset(d.Nid)
}

var _ = io.EOF
var _ = binary.LittleEndian

func zzRead(b []byte) error {
	fsys, err := erofs.Open(bytes.NewReader(b))
	if err != nil {
		return err
	}
	_, err = fs.ReadFile(fsys, "a")
	return err
}

func TestZZDemo(t *testing.T) {
	b, ino := zzImage(t)
	_ = ino
	if err := zzRead(b); err != nil {
		t.Fatal(err)
	}
	for bit := 0; bit < 32; bit++ {
		c := bytes.Clone(b)
		binary.LittleEndian.PutUint32(c[1024+80:], 1<<bit)
		if zzRead(c) == nil {
			t.Errorf("feature bit %d accepted", bit)
		}
	}
}
