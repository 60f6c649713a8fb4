// pkg: tarfs
// needs: a source file that fails while it is read
// breaks: the source file is never closed
package tarfs_test

import (
	"errors"
	"io"
	"io/fs"
	"testing"
	"testing/fstest"

	"github.com/dpeckett/archivefs/tarfs"
)

type counting struct {
	fstest.MapFS
	open int
}

type counted struct {
	fs.File
	c *counting
}

func (f *counted) Read(p []byte) (int, error) { return 0, errors.New("input/output error") }
func (f *counted) Close() error               { f.c.open--; return f.File.Close() }

func (c *counting) Open(name string) (fs.File, error) {
	f, err := c.MapFS.Open(name)
	if err != nil {
		return nil, err
	}
	if fi, err := f.Stat(); err == nil && fi.IsDir() {
		return f, nil
	}
	c.open++
	return &counted{f, c}, nil
}

func TestZZDemo(t *testing.T) {
	src := &counting{MapFS: fstest.MapFS{"a": {Data: []byte("abc"), Mode: 0o644}}}
	if err := tarfs.Create(io.Discard, src); err == nil {
		t.Fatal("no error")
	}
	if src.open != 0 {
		t.Fatalf("%d files left open", src.open)
	}
}
