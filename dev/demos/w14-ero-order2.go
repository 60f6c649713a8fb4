// pkg: erofs
// needs: a source with several files whose data does not fit inline, and a second image of it
// breaks: the writes of an image come in another order each time it is made from the same source
package erofs_test

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"testing"
	"testing/fstest"

	"github.com/dpeckett/archivefs/erofs"
)

func TestZZDemo(t *testing.T) {
	src := fstest.MapFS{}
	for i := 0; i < 24; i++ {
		src[fmt.Sprintf("f%02d", i)] = &fstest.MapFile{Data: bytes.Repeat([]byte{byte(i)}, 9000+i), Mode: 0o644}
	}
	var first []byte
	for i := 0; i < 6; i++ {
		f, err := os.Create(filepath.Join(t.TempDir(), "image"))
		if err != nil {
			t.Fatal(err)
		}
		rec := &recorder{File: f}
		if err := erofs.Create(rec, src); err != nil {
			t.Fatal(err)
		}
		_ = f.Close()
		if first == nil {
			first = rec.log
		} else if !bytes.Equal(first, rec.log) {
			t.Fatal("the same source is not written in the same way twice")
		}
	}
}

// recorder notes where the content of the files is written to.
type recorder struct {
	*os.File
	log []byte
}

var _ io.WriterAt = (*recorder)(nil)

func (r *recorder) WriteAt(p []byte, off int64) (int, error) {
	r.log = append(r.log, fmt.Sprintf("%d+%d ", off, len(p))...)
	return r.File.WriteAt(p, off)
}
