// pkg: memfs race
// needs: a directory listed by one goroutine while another one creates files in it
// breaks: the listing reads the directory without its lock
package memfs_test

import (
	"fmt"
	"io/fs"
	"sync"
	"testing"

	"github.com/dpeckett/archivefs/memfs"
)

func TestZZDemo(t *testing.T) {
	fsys := memfs.New()
	if err := fsys.MkdirAll("a", 0o755); err != nil {
		t.Fatal(err)
	}
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i < 300; i++ {
			if err := fsys.WriteFile(fmt.Sprintf("a/%d", i), nil, 0o644); err != nil {
				t.Error(err)
			}
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 300; i++ {
			if _, err := fs.ReadDir(fsys, "a"); err != nil {
				t.Error(err)
			}
		}
	}()
	wg.Wait()
}
