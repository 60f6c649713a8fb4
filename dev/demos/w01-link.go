// pkg: tarfs
// needs: a source whose ReadLink fails for one symlink
// breaks: the archive holds a symlink without target and success is reported
package tarfs_test

import (
	"bytes"
	"errors"
	"io/fs"
	"testing"
	"testing/fstest"

	"github.com/dpeckett/archivefs/tarfs"
)

type badLinks struct{ fstest.MapFS }

func (badLinks) ReadLink(string) (string, error)             { return "", errors.New("input/output error") }
func (b badLinks) StatLink(name string) (fs.FileInfo, error) { return nil, fs.ErrInvalid }

func TestZZDemo(t *testing.T) {
	src := badLinks{fstest.MapFS{"l": {Data: []byte("x"), Mode: fs.ModeSymlink | 0o777}}}
	var buf bytes.Buffer
	if err := tarfs.Create(&buf, src); err == nil {
		t.Fatal("no error although the link target could not be read")
	}
}
