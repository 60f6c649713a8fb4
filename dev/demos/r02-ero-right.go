// pkg: erofs
// needs: a look-up of a missing name that sorts before all names of the directory
// breaks: the look-up never returns
package erofs_test

import (
	"bytes"
	"encoding/binary"
	"io/fs"
	"time"
	"testing"

	"github.com/dpeckett/archivefs/erofs"
)

const zzMagic = 0xE0F5E1E2

// zzHand builds an image with the given block size: inodes at slots of 64 bytes from
// the block at 2048 onwards, data blocks wherever the caller puts them.
type zzHand struct {
	b    []byte
	bits uint8
}

func zzNew(bits uint8, size int) *zzHand {
	z := &zzHand{make([]byte, size), bits}
	le := binary.LittleEndian
	le.PutUint32(z.b[1024:], zzMagic)
	z.b[1024+12] = bits
	le.PutUint16(z.b[1024+14:], 0)
	le.PutUint64(z.b[1024+16:], 4)
	le.PutUint32(z.b[1024+36:], uint32(size>>bits))
	le.PutUint32(z.b[1024+40:], 1<<16>>bits) // meta blocks at 64 KiB
	return z
}

func (z *zzHand) inode(nid int, mode uint16, layout uint16, size uint64, block uint32) int {
	p := z.b[1<<16+nid*32:]
	le := binary.LittleEndian
	le.PutUint16(p, 1|layout<<1)
	le.PutUint16(p[4:], mode)
	le.PutUint64(p[8:], size)
	le.PutUint32(p[16:], block)
	le.PutUint32(p[44:], 1)
	return 1<<16 + nid*32 + 64
}

type zzEnt struct {
	name string
	nid  uint64
	typ  uint8
}

func zzDir(p []byte, ents ...zzEnt) int {
	off := 12 * len(ents)
	for i, e := range ents {
		binary.LittleEndian.PutUint64(p[12*i:], e.nid)
		binary.LittleEndian.PutUint16(p[12*i+8:], uint16(off))
		p[12*i+10] = e.typ
		off += copy(p[off:], e.name)
	}
	return off
}

func TestZZDemo(t *testing.T) {
	z := zzNew(9, 1<<17)
	z.inode(0, 0o40755, 0, 60, 200)
	zzDir(z.b[200*512:], zzEnt{".", 0, 2}, zzEnt{"..", 0, 2}, zzEnt{"a", 16, 1})
	z.inode(16, 0o100644, 0, 0, 0)
	fsys, err := erofs.Open(bytes.NewReader(z.b))
	if err != nil {
		t.Fatal(err)
	}
	done := make(chan error, 1)
	go func() {
		_, err := fs.Stat(fsys, "+x")
		done <- err
	}()
	select {
	case err := <-done:
		if err == nil {
			t.Fatal("found")
		}
	case <-time.After(20 * time.Second):
		t.Fatal("does not return")
	}
}
