// pkg: erofs
// needs: a directory of more than 65536 blocks
// breaks: listing the directory never ends, its entries come again and again
package erofs_test

import (
	"bytes"
	"encoding/binary"
	"errors"
	"testing"

	"github.com/dpeckett/archivefs/erofs"
)

const zzMagic = 0xE0F5E1E2

// zzHand builds an image with the given block size: inodes at slots of 64 bytes from
// the block at 2048 onwards, data blocks wherever the caller puts them.
type zzHand struct {
	b    []byte
	bits uint8
}

func zzNew(bits uint8, size int) *zzHand {
	z := &zzHand{make([]byte, size), bits}
	le := binary.LittleEndian
	le.PutUint32(z.b[1024:], zzMagic)
	z.b[1024+12] = bits
	le.PutUint16(z.b[1024+14:], 0)
	le.PutUint64(z.b[1024+16:], 4)
	le.PutUint32(z.b[1024+36:], uint32(size>>bits))
	le.PutUint32(z.b[1024+40:], 1<<16>>bits) // meta blocks at 64 KiB
	return z
}

func (z *zzHand) inode(nid int, mode uint16, layout uint16, size uint64, block uint32) int {
	p := z.b[1<<16+nid*32:]
	le := binary.LittleEndian
	le.PutUint16(p, 1|layout<<1)
	le.PutUint16(p[4:], mode)
	le.PutUint64(p[8:], size)
	le.PutUint32(p[16:], block)
	le.PutUint32(p[44:], 1)
	return 1<<16 + nid*32 + 64
}

type zzEnt struct {
	name string
	nid  uint64
	typ  uint8
}

func zzDir(p []byte, ents ...zzEnt) int {
	off := 12 * len(ents)
	for i, e := range ents {
		binary.LittleEndian.PutUint64(p[12*i:], e.nid)
		binary.LittleEndian.PutUint16(p[12*i+8:], uint16(off))
		p[12*i+10] = e.typ
		off += copy(p[off:], e.name)
	}
	return off
}

func TestZZDemo(t *testing.T) {
	const n = 66000
	z := zzNew(9, 1<<17+n*512)
	z.inode(0, 0o40755, 0, (n-1)*512+13, 256)
	for i := 0; i < n; i++ {
		zzDir(z.b[(256+i)*512:], zzEnt{"a", 0, 2})
	}
	img, err := erofs.OpenImage(bytes.NewReader(z.b))
	if err != nil {
		t.Fatal(err)
	}
	ino, err := img.Inode(0)
	if err != nil {
		t.Fatal(err)
	}
	seen := 0
	err = ino.IterDirents(func(name string, typ uint8, nid uint64) error {
		if seen++; seen > n+10 {
			return errors.New("more entries than there are")
		}
		return nil
	})
	if err != nil || seen != n {
		t.Fatal(seen, err)
	}
}
