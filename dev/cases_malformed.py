from cases import A,AC,T,TC,E,R,W,K,M
bugs=[
 ('r05-magic','R05',[(R,'''	if i.sb.Magic != SuperBlockMagicV1 {''','''	if uint16(i.sb.Magic) != SuperBlockMagicV1&0xffff {''')]),
 ('r05-bits','R05',[(R,'''i.sb.BlockSizeBits > maxBlockSizeBits''','''i.sb.BlockSizeBits > 2*maxBlockSizeBits''')]),
 ('r05-features','R05',[(R,'''featureIncompat := i.sb.FeatureIncompat & ^uint32(FeatureIncompatSupported); featureIncompat != 0''','''featureIncompat := i.sb.FeatureIncompat & (1<<16 - 1); featureIncompat != FeatureIncompatSupported''')]),
 ('r05-checksum','R05',[(R,'''	if checksum != i.sb.Checksum {''','''	if checksum != i.sb.Checksum && i.sb.FeatureIncompat != FeatureIncompatSupported {''')]),
 ('r05-checksum2','R05',[(R,'''	if i.sb.FeatureCompat&FeatureCompatSuperBlockChecksum == 0 {''','''	if i.sb.FeatureCompat != FeatureCompatSuperBlockChecksum {''')]),
 ('r05-xattr','R05',[(R,'''		if ino.XattrCount != 0 {
			return Inode{}, fmt.Errorf("unsupported xattr at inode %d", nid)
		}

		rawBlockAddr = ino.RawBlockAddr
		inodeSize = int64(binary.Size(*ino))

		inode.size = ino.Size''','''		if ino.XattrCount > 1 {
			return Inode{}, fmt.Errorf("unsupported xattr at inode %d", nid)
		}

		rawBlockAddr = ino.RawBlockAddr
		inodeSize = int64(binary.Size(*ino))

		inode.size = ino.Size''')]),
 ('r05-layout','R05',[(R,'''	case InodeDataLayoutFlatPlain:
		inode.dataOff = ''','''	case InodeDataLayoutFlatPlain, InodeDataLayoutChunkBased:
		inode.dataOff = ''')]),
 ('r05-tail','R05',[(R,'''tailSize > blockSize-inodeSize {''','''tailSize > blockSize {''')]),
 ('r05-tail0','R05',[(R,'''		if tailSize == 0 || tailSize''','''		if tailSize''')]),
 ('r05-dirent0','R05',[(R,'''	if d0.NameOff < uint16(DirentSize) || ''','''	if d0.NameOff == 0 || ''')]),
 ('r05-dirent1','R05',[(R,'''uint32(d0.NameOff) >= block.size {''','''uint32(d0.NameOff) > ino.image.BlockSize() {''')]),
 ('r05-iter','R05',[(R,'''func (ino *Inode) IterDirents(cb func(name string, typ uint8, nid uint64) error) error {
	if !ino.IsDir() {''','''func (ino *Inode) IterDirents(cb func(name string, typ uint8, nid uint64) error) error {
	if ino.IsRegular() || ino.IsSymlink() {''')]),
 ('r05-link','R05',[(R,'''		if ino.blocks > 1 || size > int64(ino.image.BlockSize()) {''','''		if ino.blocks > 2 || size > 2*int64(ino.image.BlockSize()) {''')]),
 ('r05-neg','R05',[(R,'''	if n < 0 {
		return nil, fmt.Errorf("invalid length %d at offset %d", n, off)
	}
''','''	if n < 0 {
		n = 0
	}
''')]),
 ('r05-ar-end','R05',[(A,'''	if line[58] != 0x60 || line[59] != 0x0A {''','''	if line[58] != 0x60 && line[59] != 0x0A {''')]),
 ('r05-ar-magic','R05',[(A,'''	if string(header) != "!<arch>\\n" {''','''	if string(header) != "!<arch>\\n" && ra == nil {''')]),
 ('r05-ar-slash','R05',[(A,'''		if strings.Contains(e.Filename, "/") {''','''		if strings.Contains(e.Filename, "/") && e.FileSize < 0 {''')]),
 ('r05-ar-neg','R05',[(A,'''	if e.FileSize < 0 {''','''	if e.FileSize < -1 {''')]),
 ('r05-tar-type','R05',[(T,'''	case tar.TypeXGlobalHeader:
			continue''','''	case tar.TypeXGlobalHeader, tar.TypeCont:
			continue''')]),
 ('r05-tar-fifo','R05',[(T,'''		case tar.TypeDir, tar.TypeLink, tar.TypeSymlink:
			// NOP''','''		case tar.TypeDir, tar.TypeLink, tar.TypeSymlink, tar.TypeFifo:
			// NOP''')]),
]
quiet=[
 ('q-r05-sb','',[(R,'''	if i.sb.Magic != SuperBlockMagicV1 {
		return fmt.Errorf("unknown magic: 0x%x", i.sb.Magic)
	}

	if i.sb.BlockSizeBits < minBlockSizeBits || i.sb.BlockSizeBits > maxBlockSizeBits {
		return fmt.Errorf("unsupported block size bits: %d", i.sb.BlockSizeBits)
	}
''','''	switch bits := i.sb.BlockSizeBits; {
	case i.sb.Magic^SuperBlockMagicV1 != 0:
		return fmt.Errorf("unknown magic: 0x%x", i.sb.Magic)
	case uint8(bits-minBlockSizeBits) > maxBlockSizeBits-minBlockSizeBits:
		return fmt.Errorf("unsupported block size bits: %d", bits)
	}
''')]),
 ('q-r05-inode','',[(R,'''		if tailSize == 0 || tailSize > blockSize-inodeSize {
			return Inode{}, fmt.Errorf("inline data not found or cross block boundary at inode %d, tail size: %d",
				nid, tailSize)
		}''','''		if room := blockSize - inodeSize; !(0 < tailSize && tailSize <= room) {
			return Inode{}, fmt.Errorf("inline data not found or cross block boundary at inode %d, tail size: %d",
				nid, tailSize)
		}'''),(R,'''	tailSize := int64(inode.size) & (blockSize - 1)''','''	tailSize := int64(inode.size) % blockSize''')]),
 ('q-r05-inode2','',[(R,'''	default:
		return Inode{}, fmt.Errorf("unsupported layout at inode %d", nid)
	}

	blockSize := int64(i.BlockSize())
	inode.blocks = (int64(inode.size) + (blockSize - 1)) / blockSize
''','''	default:
		return Inode{}, fmt.Errorf("unsupported layout at inode %d", nid)
	}
	return i.locate(inode, off, inodeSize, rawBlockAddr)
}

func (i *Image) locate(inode Inode, off, inodeSize int64, rawBlockAddr uint32) (Inode, error) {
	nid := inode.nid
	blockSize := int64(i.BlockSize())
	inode.blocks = (int64(inode.size) + (blockSize - 1)) / blockSize
''')]),
 ('q-r05-dirent','',[(R,'''	if d0.NameOff < uint16(DirentSize) || uint32(d0.NameOff) >= block.size {
		return nil, fmt.Errorf("invalid nameOff0 %d at inode %d", d0.NameOff, ino.Nid())
	}
	return d0, nil''','''	if off := int64(d0.NameOff); off >= DirentSize && off < int64(block.size) {
		return d0, nil
	}
	return nil, fmt.Errorf("invalid nameOff0 %d at inode %d", d0.NameOff, ino.Nid())''')]),
 ('q-r05-ar','',[(A,'''	if line[58] != 0x60 || line[59] != 0x0A {''','''	if string(line[58:60]) != "`\\n" {''')]),
 ('q-r05-ar2','',[(A,'''	if line[58] != 0x60 || line[59] != 0x0A {''','''	if end := line[len(line)-2:]; end[0] != 0x60 || end[1] != 0x0A {''')]),
 ('q-r05-ar3','',[(A,'''		intValue, err := strconv.Atoi(input)
		if err != nil {
			return nil, fmt.Errorf("failed to parse entry value: %w", err)
		}
		*target = int64(intValue)
	}

	// A negative size would move the archive cursor backwards (and never terminate).
	if e.FileSize < 0 {
		return nil, fmt.Errorf("invalid file size: %d", e.FileSize)
	}
''','''		intValue, err := strconv.ParseInt(input, 10, 64)
		if err != nil {
			return nil, fmt.Errorf("failed to parse entry value: %w", err)
		}
		// A negative size would move the archive cursor backwards (and never terminate).
		if target == &e.FileSize && intValue < 0 {
			return nil, fmt.Errorf("invalid file size: %d", intValue)
		}
		*target = intValue
	}
''')]),
 ('q-r05-tar','',[(T,'''		default:
			return nil, fmt.Errorf("unsupported file type: %s, %c", h.Name, h.Typeflag)
		}
''','''		}
		if !strings.ContainsRune("0125S", rune(h.Typeflag)) {
			return nil, fmt.Errorf("unsupported file type: %s, %c", h.Name, h.Typeflag)
		}
''')]),
]
