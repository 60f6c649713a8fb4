// pkg: erofs
// needs: the destination fails after the superblock would have been written
// breaks: a half written image carries a valid superblock
package erofs_test

import (
	"errors"
	"io/fs"
	"testing"
	"testing/fstest"
	"time"

	"github.com/dpeckett/archivefs/erofs"
)

type failingAt struct {
	data  []byte
	calls int
	fail  int
}

func (f *failingAt) WriteAt(p []byte, off int64) (int, error) {
	f.calls++
	if f.calls == f.fail {
		return 0, errors.New("no space left")
	}
	if n := int(off) + len(p); n > len(f.data) {
		f.data = append(f.data, make([]byte, n-len(f.data))...)
	}
	copy(f.data[off:], p)
	return len(p), nil
}

func TestZZDemo(t *testing.T) {
	src := fstest.MapFS{"a": {Data: make([]byte, 10000), Mode: 0o644, ModTime: time.Unix(1, 0)}, "d": {Mode: fs.ModeDir | 0o755}, "d/b": {Data: []byte("x"), Mode: 0o644}}
	full := &failingAt{}
	if err := erofs.Create(full, src); err != nil {
		t.Fatal(err)
	}
	for n := 1; n <= full.calls; n++ {
		f := &failingAt{fail: n}
		if err := erofs.Create(f, src); err == nil {
			t.Fatalf("no error when write %d fails", n)
		}
		if len(f.data) >= 1028 && f.data[1024] == 0xe2 && f.data[1025] == 0xe1 {
			t.Fatalf("write %d failed, but the image has a superblock", n)
		}
	}
}
