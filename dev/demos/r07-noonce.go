// pkg: erofs race
// needs: two goroutines asking the same directory entry for its information at once
// breaks: the cached inode is filled in without synchronisation
package erofs_test

import (
	"bytes"
	"io/fs"
	"os"
	"sync"
	"testing"

	"github.com/dpeckett/archivefs/erofs"
)

func TestZZDemo(t *testing.T) {
	b, err := os.ReadFile("testdata/toybox.img")
	if err != nil {
		t.Fatal(err)
	}
	fsys, err := erofs.Open(bytes.NewReader(b))
	if err != nil {
		t.Fatal(err)
	}
	for n := 0; n < 20; n++ {
		ents, err := fs.ReadDir(fsys, ".")
		if err != nil || len(ents) == 0 {
			t.Fatal(err)
		}
		var wg sync.WaitGroup
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, e := range ents {
					if _, err := e.Info(); err != nil {
						t.Error(err)
					}
				}
			}()
		}
		wg.Wait()
	}
}
