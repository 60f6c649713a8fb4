// pkg: erofs
// needs: two images of the same source made at different times
// breaks: the image depends on when it is made
package erofs_test

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"testing"
	"testing/fstest"
	"time"

	"github.com/dpeckett/archivefs/erofs"
)

func TestZZDemo(t *testing.T) {
	src := fstest.MapFS{}
	for i := 0; i < 4; i++ {
		src[fmt.Sprintf("f%02d", i)] = &fstest.MapFile{Data: bytes.Repeat([]byte{byte(i)}, 9000+i), Mode: 0o644}
	}
	var first []byte
	for i := 0; i < 2; i++ {
		f, err := os.Create(filepath.Join(t.TempDir(), "image"))
		if err != nil {
			t.Fatal(err)
		}
		rec := &recorder{File: f}
		if err := erofs.Create(rec, src); err != nil {
			t.Fatal(err)
		}
		_ = f.Close()
		time.Sleep(1100 * time.Millisecond)
		if first == nil {
			first = rec.log
		} else if !bytes.Equal(first, rec.log) {
			t.Fatal("the same source is not written in the same way twice")
		}
	}
}

// recorder notes what is written.
type recorder struct {
	*os.File
	log []byte
}

var _ io.WriterAt = (*recorder)(nil)

func (r *recorder) WriteAt(p []byte, off int64) (int, error) {
	r.log = append(r.log, p...)
	return r.File.WriteAt(p, off)
}
