from cases import E, R, K
bugs = [
 ('r18-nidshift', 'R18', [(R, 'int64(sb.MetaOffset()) + (int64(nid) << InodeSlotBits)', 'int64(sb.MetaOffset()) + int64(uint32(nid)<<InodeSlotBits)')]),
 ('r18-blockaddr', 'R18', [(R, 'return int64(addr) << sb.BlockSizeBits', 'return int64(addr << sb.BlockSizeBits)')]),
 ('r18-metaoff', 'R18', [(R, 'return sb.BlockAddrToOffset(sb.MetaBlockAddr)', 'return int64(sb.MetaBlockAddr) * BlockSize')]),
 ('r18-idata', 'R18', [(R, 'inode.idataOff = off + inodeSize', 'inode.idataOff = off + 64')]),
 ('r18-size32', 'R18', [(R, 'inode.size = ino.Size\n', 'inode.size = uint64(uint32(ino.Size))\n')]),
 ('r18-tail', 'R18', [(R, 'idataSize := ino.size & (uint64(ino.image.BlockSize()) - 1)', 'idataSize := ino.size & (BlockSize - 1)')]),
 ('r18-order', 'R18', [(R, '''		if ino.size > idataSize {
			readers = append(readers, io.NewSectionReader(ino.image.src, int64(ino.dataOff), int64(ino.size-idataSize)))
		}
		readers = append(readers, io.NewSectionReader(ino.image.src, int64(ino.idataOff), int64(idataSize)))
''', '''		readers = append(readers, io.NewSectionReader(ino.image.src, int64(ino.idataOff), int64(idataSize)))
		if ino.size > idataSize {
			readers = append(readers, io.NewSectionReader(ino.image.src, int64(ino.dataOff), int64(ino.size-idataSize)))
		}
''')]),
 ('r18-lastblock', 'R18', [(R, 'lastBlock := int64(blockIdx) == ino.blocks-1', 'lastBlock := int64(blockIdx) >= ino.blocks-2')]),
 ('r18-blkbase', 'R18', [(R, 'base = ino.dataOff + int64(blockIdx)*int64(blockSize)', 'base = ino.dataOff + int64(blockIdx)*BlockSize')]),
 ('r18-blktail', 'R18', [(R, '		if tailSize := uint32(ino.size) & (blockSize - 1); tailSize != 0 {\n			size = tailSize\n		}', '		size = uint32(ino.size) & (blockSize - 1)')]),
 ('r18-blocks', 'R18', [(R, 'inode.blocks = (int64(inode.size) + (blockSize - 1)) / blockSize', 'inode.blocks = int64(inode.size)/blockSize + 1')]),
 ('r18-namelen', 'R18', [(R, 'nameLen = min(block.size-uint32(d.NameOff), MaxNameLen+1)', 'nameLen = min(block.size-uint32(d.NameOff), MaxNameLen-1)')]),
 ('r18-lastdirent', 'R18', [(R, 'name, err := ino.getDirentName(d, direntOff, block, numDirents == 1)', 'name, err := ino.getDirentName(d, direntOff, block, numDirents == 1 && blockIdx == uint64(ino.blocks)-1)')]),
 ('r18-link', 'R18', [(R, 'off = int64(ino.idataOff)\n	} else {', '		off = int64(ino.idataOff) &^ 63\n	} else {')]),
 ('r18-linkmax', 'R18', [(R, 'if size > int64(ino.image.BlockSize())-1 {\n			size = int64(ino.image.BlockSize()) - 1', 'if size > MaxNameLen {\n			size = MaxNameLen')]),
 ('r18-numd', 'R18', [(R, 'numDirents := d.NameOff / uint16(DirentSize)\n		direntOff', 'numDirents := min(d.NameOff/uint16(DirentSize), 2)\n		direntOff')]),
 ('r18-nid32', 'R18', [(R, 'cb(string(name), d.FileType, d.Nid)', 'cb(string(name), d.FileType, uint64(uint32(d.Nid)))')]),
 ('r18-secsize', 'R18', [(R, 'return io.NewSectionReader(ino.image.src, int64(ino.dataOff), int64(ino.size)), nil', 'return io.NewSectionReader(ino.image.src, int64(ino.dataOff), ino.blocks*int64(ino.image.BlockSize())), nil')]),
]
quiet = [
 ('q-r18-mul', 'R18', [(R, 'return int64(addr) << sb.BlockSizeBits', 'return int64(addr) * int64(sb.BlockSize())')]),
 ('q-r18-nid', 'R18', [(R, 'int64(sb.MetaOffset()) + (int64(nid) << InodeSlotBits)', 'int64(nid)*32 + sb.MetaOffset()')]),
 ('q-r18-tailmod', 'R18', [(R, 'idataSize := ino.size & (uint64(ino.image.BlockSize()) - 1)', 'idataSize := ino.size % uint64(ino.image.BlockSize())')]),
 ('q-r18-blocks', 'R18', [(R, 'inode.blocks = (int64(inode.size) + (blockSize - 1)) / blockSize', 'inode.blocks = int64(inode.size) / blockSize\n	if int64(inode.size)%blockSize != 0 {\n		inode.blocks++\n	}')]),
 ('q-r18-blockdata', 'R18', [(R, '''	lastBlock := int64(blockIdx) == ino.blocks-1
	base := ino.idataOff
	if !lastBlock || base == 0 {
		base = ino.dataOff + int64(blockIdx)*int64(blockSize)
	}
	size := blockSize
	if lastBlock {
		if tailSize := uint32(ino.size) & (blockSize - 1); tailSize != 0 {
			size = tailSize
		}
	}
	return blockData{base, size}''', '''	d := blockData{base: ino.dataOff + int64(blockIdx)<<ino.image.sb.BlockSizeBits, size: blockSize}
	if int64(blockIdx)+1 != ino.blocks {
		return d
	}
	if ino.idataOff != 0 {
		d.base = ino.idataOff
	}
	if rest := ino.size % uint64(blockSize); rest > 0 {
		d.size = uint32(rest)
	}
	return d''')]),
 ('q-r18-iter', 'R18', [(R, '''		for {
			name, err := ino.getDirentName(d, direntOff, block, numDirents == 1)
			if err != nil {
				return err
			}
			if err := cb(string(name), d.FileType, d.Nid); err != nil {
				return err
			}
			if numDirents--; numDirents == 0 {
				break
			}

			direntOff += DirentSize
			d, err = ino.image.direntAt(direntOff)
			if err != nil {
				return err
			}
		}''', '''		for n := uint16(0); n < numDirents; n++ {
			if n > 0 {
				direntOff = block.base + int64(n)*DirentSize
				if d, err = ino.image.direntAt(direntOff); err != nil {
					return err
				}
			}
			name, err := ino.getDirentName(d, direntOff, block, n+1 == numDirents)
			if err != nil {
				return err
			}
			if err := cb(string(name), d.FileType, d.Nid); err != nil {
				return err
			}
		}''')]),
 ('q-r18-link', 'R18', [(R, '''	off := int64(ino.dataOff)
	size := int64(ino.size)
	if ino.idataOff != 0 {''', '''	off, size := ino.dataOff, int64(ino.Size())
	if inline := ino.idataOff > 0; inline {''')]),
 ('q-r18-name', 'R18', [(R, 'nameLen = min(block.size-uint32(d.NameOff), MaxNameLen+1)', 'nameLen = block.size - uint32(d.NameOff)\n		if nameLen > MaxNameLen+1 {\n			nameLen = MaxNameLen + 1\n		}')]),
]
