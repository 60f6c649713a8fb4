// pkg: memfs race
// needs: a file opened or read by one goroutine while another one overwrites it
// breaks: the stored file is changed in place, under readers
package memfs_test

import (
	"io"
	"sync"
	"testing"

	"github.com/dpeckett/archivefs/memfs"
)

func TestZZDemo(t *testing.T) {
	fsys := memfs.New()
	if err := fsys.WriteFile("f", []byte("x"), 0o644); err != nil {
		t.Fatal(err)
	}
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i < 500; i++ {
			if err := fsys.WriteFile("f", []byte("yy"), 0o644); err != nil {
				t.Error(err)
			}
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 500; i++ {
			f, err := fsys.Open("f")
			if err != nil {
				t.Error(err)
				return
			}
			io.ReadAll(f)
			f.Stat()
			f.Close()
		}
	}()
	wg.Wait()
}
