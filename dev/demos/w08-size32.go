// pkg: erofs
// needs: a file of more than 4 GiB
// breaks: the size is cut to 32 bits
package erofs_test

import (
	"bytes"
	"io"
	"io/fs"
	"testing"
	"testing/fstest"
	"time"

	"github.com/dpeckett/archivefs/erofs"
)

type zzZeros struct{ size, off int64 }

func (z *zzZeros) Open(name string) (fs.File, error) {
	if name == "." {
		return fstest.MapFS{"a": {Mode: 0o644}}.Open(".")
	}
	return &zzZeros{size: z.size}, nil
}
func (z *zzZeros) ReadDir(name string) ([]fs.DirEntry, error) {
	return []fs.DirEntry{fs.FileInfoToDirEntry(z)}, nil
}
func (z *zzZeros) Stat() (fs.FileInfo, error) { return z, nil }
func (z *zzZeros) Close() error               { return nil }
func (z *zzZeros) Name() string               { return "a" }
func (z *zzZeros) Size() int64                { return z.size }
func (z *zzZeros) Mode() fs.FileMode          { return 0o644 }
func (z *zzZeros) ModTime() time.Time         { return time.Unix(1, 0) }
func (z *zzZeros) IsDir() bool                { return false }
func (z *zzZeros) Sys() any                   { return nil }
func (z *zzZeros) Read(p []byte) (int, error) {
	n := min(z.size-z.off, int64(len(p)))
	if n == 0 {
		return 0, io.EOF
	}
	z.off += n
	return int(n), nil
}

type zzHead struct{ b [1 << 16]byte }

func (z *zzHead) WriteAt(p []byte, off int64) (int, error) {
	if off < int64(len(z.b)) {
		copy(z.b[off:], p)
	}
	return len(p), nil
}

func TestZZDemo(t *testing.T) {
	dst := &zzHead{}
	if err := erofs.Create(dst, &zzZeros{size: 1<<32 + 5}); err != nil {
		t.Fatal(err)
	}
	fsys, err := erofs.Open(bytes.NewReader(dst.b[:]))
	if err != nil {
		t.Fatal(err)
	}
	fi, err := fs.Stat(fsys, "a")
	if err != nil || fi.Size() != 1<<32+5 {
		t.Fatal(fi, err)
	}
}
