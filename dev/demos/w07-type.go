// pkg: erofs
// needs: a source with a symbolic link, and a reader that looks at the type in the directory
// breaks: the directory entry of a symbolic link has the type of a regular file
package erofs

import (
	"bytes"
	"encoding/binary"
	"io"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/dpeckett/archivefs/tarfs"

	stdtar "archive/tar"
)

func TestZZDemo(t *testing.T) {
	var buf bytes.Buffer
	tw := stdtar.NewWriter(&buf)
	for _, h := range []*stdtar.Header{
		{Typeflag: stdtar.TypeReg, Name: "file", Mode: 0o644, ModTime: time.Unix(1, 0)},
		{Typeflag: stdtar.TypeSymlink, Name: "link", Linkname: "file", Mode: 0o777, ModTime: time.Unix(1, 0)},
	} {
		if err := tw.WriteHeader(h); err != nil {
			t.Fatal(err)
		}
	}
	_ = tw.Close()
	src, err := tarfs.Open(bytes.NewReader(buf.Bytes()))
	if err != nil {
		t.Fatal(err)
	}
	f, err := os.Create(filepath.Join(t.TempDir(), "image"))
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	if err := Create(f, src); err != nil {
		t.Fatal(err)
	}
	raw, err := io.ReadAll(io.NewSectionReader(f, 0, 1<<20))
	if err != nil {
		t.Fatal(err)
	}
	// The directory block: entries for ".", "file" and "link", followed by the names.
	at := bytes.Index(raw, []byte(".filelink"))
	if at < 3*12 {
		t.Fatal("there is no directory block")
	}
	want := []byte{2, 1, 7}
	for i := range want {
		e := raw[at-3*12+i*12:]
		if got := e[10]; got != want[i] {
			t.Fatalf("entry %d (inode %d) has the type %d, want %d", i, binary.LittleEndian.Uint64(e), got, want[i])
		}
	}
}
