// pkg: erofs
// needs: a source tree with a named pipe
// breaks: the pipe is left out, or the image refers to an inode that is not there, without an error
package erofs_test

import (
	"io/fs"
	"os"
	"testing"
	"testing/fstest"

	"github.com/dpeckett/archivefs/erofs"
)

type hidden struct{ fstest.MapFS }

func (h hidden) ReadDir(name string) ([]fs.DirEntry, error) { return fs.ReadDir(h.MapFS, name) }

func TestZZDemo(t *testing.T) {
	f, err := os.Create(t.TempDir() + "/img")
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	// the pipe is the only thing there: the root itself
	src := pipeFS{}
	if err := erofs.Create(f, src); err == nil {
		t.Fatal("no error")
	}
}

type pipeFS struct{}

func (pipeFS) Open(name string) (fs.File, error) {
	return fstest.MapFS{"p": {Mode: fs.ModeNamedPipe | 0o644}}.Open("p")
}
