from cases import A, AC, T, TC, E, R, W, K, M
bugs = [
 # W08
 ('w08-swap', 'W08', [(W, '		UID:       uint32(uid),\n		GID:       uint32(gid),', '		UID:       uint32(gid),\n		GID:       uint32(uid),')]),
 ('w08-uid16', 'W08', [(W, '		UID:       uint32(uid),', '		UID:       uint32(uint16(uid)),')]),
 ('w08-compactuid', 'W08', [(W, 'uid <= math.MaxUint16 && gid <= math.MaxUint16 && nlink', 'uid <= math.MaxUint16 && gid <= math.MaxUint32 && nlink')]),
 ('w08-nsec', 'W08', [(W, 'uint32(fi.ModTime().Nanosecond())', 'uint32(fi.ModTime().Nanosecond() / 1000 * 1000)')]),
 ('w08-mtime32', 'W08', [(W, 'uint64(fi.ModTime().Unix())', 'uint64(uint32(fi.ModTime().Unix()))')]),
 ('w08-size32', 'W08', [(W, 'ino.Size = uint64(size)', 'ino.Size = uint64(uint32(size))')]),
 ('w08-size-compact', 'W08', [(W, '''			if size > math.MaxUint32 {
				return metaSize, dataSize, fmt.Errorf("size of %q changed: does not fit in a compact inode", path)
			}

''', '')]),
 ('w08-range', 'W08', [(W, 'int64(uid) > math.MaxUint32 || gid < 0', 'gid < 0')]),
 ('w08-nlink', 'W08', [(W, 'nlink := 1\n', 'nlink := 2\n')]),
 # W15
 ('w15-slot', 'W15', [(W, 'off := metaBlockAddr*BlockSize + int64(nid)*InodeSlotSize', 'off := metaBlockAddr*BlockSize + int64(nid*InodeSlotSize)')]),
 ('w15-inline', 'W15', [(W, 'off+int64(binary.Size(ino))), data)', 'off+InodeSlotSize), data)')]),
 ('w15-raw32', 'W15', [(W, 'int64(rawBlockAddr)*BlockSize), data)', 'int64(rawBlockAddr*BlockSize)), data)')]),
 ('w15-meta', 'W15', [(W, 'MetaBlockAddr: uint32(metaBlockAddr)', 'MetaBlockAddr: uint32(metaBlockAddr - 1)')]),
 ('w15-bits', 'W15', [(W, 'BlockSizeBits: BlockSizeBits,', 'BlockSizeBits: BlockSizeBits - 1,')]),
 # W03
 ('w03-inline', 'W03', [(W, '''			if n != inodeSize(ino) {
				return fmt.Errorf("size of %q changed: expected %d bytes, copied %d", path, inodeSize(ino), n)
			}
		}
''', '			_ = n\n		}\n')]),
 ('w03-data', 'W03', [(W, '''		if n != inodeSize(ino) {
			return fmt.Errorf("size of %q changed: expected %d bytes, copied %d", path, inodeSize(ino), n)
		}
	}
''', '		if n < inodeSize(ino) {\n			return fmt.Errorf("size of %q changed: expected %d bytes, copied %d", path, inodeSize(ino), n)\n		}\n	}\n')]),
 ('w03-fresh', 'W03', [(W, 'data, _, err := w.dataForInode(path, ino)\n		if err', 'data, size, err := w.dataForInode(path, ino)\n		if err'), (W, '''		if n != inodeSize(ino) {
			return fmt.Errorf("size of %q changed: expected %d bytes, copied %d", path, inodeSize(ino), n)
		}
	}
''', '		if n != size {\n			return fmt.Errorf("size of %q changed: expected %d bytes, copied %d", path, inodeSize(ino), n)\n		}\n	}\n')]),
 ('w03-trunc', 'W03', [(W, '		return int64(ino.Size)\n	case InodeExtended:\n		return int64(ino.Size)', '		return int64(ino.Size)\n	case InodeExtended:\n		return int64(uint32(ino.Size))')]),
 ('w03-ar', 'W03', [(AC, 'if n != size {', 'if n > size {')]),
 ('w03-ar-pad', 'W03', [(AC, 'if n != size {', 'if (n+1)&^1 != (size+1)&^1 {')]),
 # W04
 ('w04-noguard', 'W04', [(AC, 'if len(arHeader) != 60 {', 'if len(arHeader) < 60 {')]),
 ('w04-base', 'W04', [(AC, 'fmt.Sprintf("%07o", hdr.Mode)', 'fmt.Sprintf("%07d", hdr.Mode)')]),
 ('w04-swap', 'W04', [(AC, '		strconv.Itoa(hdr.Uid),\n		strconv.Itoa(hdr.Gid),', '		strconv.Itoa(hdr.Gid),\n		strconv.Itoa(hdr.Uid),')]),
 ('w04-cols', 'W04', [(AC, '"%-16s%-12s%-6s%-6s%-8s%-10s`\\n"', '"%-16s%-12s%-6s%-6s%-10s%-8s`\\n"')]),
 ('w04-end', 'W04', [(AC, '%-10s`\\n"', '%-11s\\n"')]),
 ('w04-name', 'W04', [(AC, '	if len(name) > 16 {\n		return fmt.Errorf("file name too long: %s", name)\n	}\n', '	if len(name) > 16 {\n		name = name[:16]\n	}\n')]),
 ('w04-uid', 'W04', [(AC, 'strconv.Itoa(hdr.Uid),', 'strconv.Itoa(hdr.Uid % 1000000),')]),
 ('w04-mtime', 'W04', [(AC, 'strconv.Itoa(int(hdr.ModTime.Unix())),', 'strconv.Itoa(int(int32(hdr.ModTime.Unix()))),')]),
 ('w04-perm', 'W04', [(AC, 'hdr.Mode),', 'hdr.Mode&0777),')]),
]
quiet = [
 ('q-w08-lit', 'W08', [(W, '''		UID:       uint32(uid),
		GID:       uint32(gid),
		Mtime:     uint64(fi.ModTime().Unix()),
		MtimeNsec: uint32(fi.ModTime().Nanosecond()),
	}, nil''', '''		UID:       uint32(uid & math.MaxUint32),
		GID:       uint32(gid),
		Mtime:     uint64(mtime.Unix()),
		MtimeNsec: uint32(mtime.Nanosecond()),
	}, nil'''), (W, '	uid, gid := getOwner(fi)\n', '	uid, gid := getOwner(fi)\n	mtime := fi.ModTime()\n')]),
 ('q-w08-zero', 'W08', [(W, 'fi.ModTime() == time.Time{}', 'fi.ModTime().IsZero()'), (W, '	"time"\n', '')]),
 ('q-w08-equal', 'W08', [(W, 'fi.ModTime() == time.Time{}', 'fi.ModTime().Equal(time.Time{})')]),
 ('q-w08-range', 'W08', [(W, '	if uid < 0 || int64(uid) > math.MaxUint32 || gid < 0 || int64(gid) > math.MaxUint32 {\n		return nil, fmt.Errorf("owner out of range: %d:%d", uid, gid)\n	}\n', '	for _, id := range []int{uid, gid} {\n		if id < 0 || int64(id) > math.MaxUint32 {\n			return nil, fmt.Errorf("owner out of range: %d:%d", uid, gid)\n		}\n	}\n')]),
 ('q-w08-fits', 'W08', [(W, '	if uid < 0 || int64(uid) > math.MaxUint32 || gid < 0 || int64(gid) > math.MaxUint32 {', '	if !fits32(uid) || !fits32(gid) {'), (W, '// direntsByName sorts', 'func fits32(n int) bool { return n >= 0 && int64(n) <= math.MaxUint32 }\n\n// direntsByName sorts')]),
 ('q-w15-shift', 'W15', [(W, 'off := metaBlockAddr*BlockSize + int64(nid)*InodeSlotSize', 'off := metaBlockAddr<<BlockSizeBits + int64(nid)<<InodeSlotBits')]),
 ('q-w15-helper', 'W15', [(W, 'off := metaBlockAddr*BlockSize + int64(nid)*InodeSlotSize', 'off := inodeOffset(metaBlockAddr, nid)'), (W, '// direntsByName sorts', 'func inodeOffset(metaBlockAddr int64, nid uint32) int64 {\n	base := metaBlockAddr * BlockSize\n	return base + InodeSlotSize*int64(nid)\n}\n\n// direntsByName sorts')]),
 ('q-w15-copy', 'W15', [(W, 'n, err := io.Copy(io.NewOffsetWriter(w.dst, int64(rawBlockAddr)*BlockSize), data)', 'out := io.NewOffsetWriter(w.dst, int64(rawBlockAddr)*BlockSize)\n		n, err := io.Copy(out, data)')]),
 ('q-w15-both', 'W15', [(W, '''		n, err := io.Copy(io.NewOffsetWriter(w.dst, int64(rawBlockAddr)*BlockSize), data)
		_ = data.Close()
		if err != nil {
			return fmt.Errorf("failed to write data for %q: %w", path, err)
		}
		if n != inodeSize(ino) {
			return fmt.Errorf("size of %q changed: expected %d bytes, copied %d", path, inodeSize(ino), n)
		}
''', '''		if err := w.copyData(path, ino, int64(rawBlockAddr)*BlockSize, data); err != nil {
			return err
		}
'''), (W, '''			n, err := io.Copy(io.NewOffsetWriter(w.dst, off+int64(binary.Size(ino))), data)
			_ = data.Close()
			if err != nil {
				return fmt.Errorf("failed to write inline data for %q: %w", path, err)
			}
			if n != inodeSize(ino) {
				return fmt.Errorf("size of %q changed: expected %d bytes, copied %d", path, inodeSize(ino), n)
			}
''', '''			if err := w.copyData(path, ino, off+int64(binary.Size(ino)), data); err != nil {
				return err
			}
'''), (W, '// direntsByName sorts', '''func (w *writer) copyData(path string, ino any, off int64, data io.ReadCloser) error {
	n, err := io.Copy(io.NewOffsetWriter(w.dst, off), data)
	_ = data.Close()
	if err != nil {
		return fmt.Errorf("failed to write data for %q: %w", path, err)
	}
	if want := inodeSize(ino); n != want {
		return fmt.Errorf("size of %q changed: expected %d bytes, copied %d", path, want, n)
	}
	return nil
}

// direntsByName sorts''')]),
 ('q-w03-switch', 'W03', [(AC, '''	if n != size {
		return''', '''	switch {
	case n == size:
	default:
		return''')]),
 ('q-w03-two', 'W03', [(AC, 'if n != size {', 'if n < size || n > size {')]),
 ('q-w03-copyn', 'W03', [(AC, '	n, err := io.Copy(w, file)', '	n, err := io.CopyN(w, file, size)')]),
 ('q-w04-direct', 'W04', [(AC, '"%-16s%-12s%-6s%-6s%-8s%-10s`\\n"', '"%-16s%-12d%-6d%-6d%07o %-10d`\\n"'), (AC, 'strconv.Itoa(int(hdr.ModTime.Unix()))', 'hdr.ModTime.Unix()'), (AC, 'strconv.Itoa(hdr.Uid)', 'hdr.Uid'), (AC, 'strconv.Itoa(hdr.Gid)', 'hdr.Gid'), (AC, 'fmt.Sprintf("%07o", hdr.Mode)', 'hdr.Mode'), (AC, 'fmt.Sprintf("%-10d", hdr.Size)', 'hdr.Size'), (AC, '	"strconv"\n', '')]),
 ('q-w04-parts', 'W04', [(AC, '''	if _, err := io.WriteString(w, arHeader); err != nil {
		return err
	}

	return nil
}

func writeArData''', '''	_, err := w.Write([]byte(arHeader))
	return err
}

func writeArData''')]),
 ('q-w04-guard', 'W04', [(AC, '	if len(arHeader) != 60 {\n', '	if n := len(arHeader); n > arHeaderSize || n < arHeaderSize {\n'), (AC, '// Create creates', 'const arHeaderSize = 60\n\n// Create creates')]),
 ('q-w04-concat', 'W04', [(AC, '"%-16s%-12s%-6s%-6s%-8s%-10s`\\n"', '"%-16s%-12s%-6s%-6s%-8s%-10s" + "`" + "\\n"')]),
]
bugs += [
 ('w16-pad', 'W16', [(W, 'spaceAvailable > 0 && int64(binary.Size(ino))+size > spaceAvailable', 'spaceAvailable > 0 && size > spaceAvailable')]),
 ('w16-round', 'W16', [(W, '			metaSize += size\n			metaSize = roundUp(metaSize, InodeSlotSize)', '			metaSize = roundUp(metaSize, InodeSlotSize) + size&^(InodeSlotSize-1)')]),
 ('w16-inlinemax', 'W16', [(W, 'MaxInlineDataSize = BlockSize / 4', 'MaxInlineDataSize = BlockSize')]),
 ('w16-dataround', 'W16', [(W, '			dataSize = roundUp(dataSize, BlockSize)\n', '			dataSize = roundUp(dataSize, BlockSize/8)\n')]),
 ('w16-roundup', 'W16', [(W, 'return (x + align - 1) &^ (align - 1)', 'return (x + align/2) &^ (align - 1)')]),
 ('w16-blocks', 'W16', [(W, 'blocks := 1 + (metaSize+dataSize)/BlockSize\n	if blocks > math.MaxUint32 {\n		return errors.New("image is too large")\n	}', 'blocks := 1 + (metaSize+dataSize)/BlockSize')]),
 ('w16-metaround', 'W16', [(W, '	metaSize = roundUp(metaSize, BlockSize)\n\n	dataBlockAddr', '	dataBlockAddr')]),
 ('w16-dbase', 'W16', [(W, 'dataBlockAddr := 1 + (metaSize / BlockSize)', 'dataBlockAddr := metaSize / BlockSize')]),
 ('w16-nidrange', 'W16', [(W, '	if metaOffset < 0 || metaOffset>>InodeSlotBits > math.MaxUint32 {', '	if metaOffset < 0 {')]),
 ('w16-slot64', 'W16', [(W, 'metaSize += int64(binary.Size(ino))', 'metaSize += InodeSlotSize')]),
]
quiet += [
 ('q-w16-helper', 'W16', [(W, '''		if inlined {
			metaSize += size
			metaSize = roundUp(metaSize, InodeSlotSize)
		} else {
			dataSize += size
			dataSize = roundUp(dataSize, BlockSize)
		}
''', '''		if inlined {
			metaSize = roundUp(metaSize+size, InodeSlotSize)
		} else {
			dataSize = roundUp(dataSize+size, BlockSize)
		}
''')]),
 ('q-w16-blocks', 'W16', [(W, 'dataSize += size\n			dataSize = roundUp(dataSize, BlockSize)', 'dataSize += (size + BlockSize - 1) / BlockSize * BlockSize')]),
 ('q-w16-space', 'W16', [(W, '''			spaceAvailable := roundUp(metaSize, BlockSize) - metaSize
			if spaceAvailable > 0 && int64(binary.Size(ino))+size > spaceAvailable {
''', '''			used := metaSize % BlockSize
			if used+int64(binary.Size(ino))+size > BlockSize {
''')]),
 ('q-w16-alloc', 'W16', [(W, '''			spaceAvailable := roundUp(metaSize, BlockSize) - metaSize
			if spaceAvailable > 0 && int64(binary.Size(ino))+size > spaceAvailable {
				// Pad the metadata to the next block boundary.
				metaSize = roundUp(metaSize, BlockSize)
			}
''', '			metaSize = inlineStart(metaSize, int64(binary.Size(ino))+size)\n'), (W, '// direntsByName sorts', '''func inlineStart(off, need int64) int64 {
	next := roundUp(off, BlockSize)
	if free := next - off; free > 0 && need > free {
		return next
	}
	return off
}

// direntsByName sorts''')]),
 ('q-w16-rem', 'W16', [(W, 'return (x + align - 1) &^ (align - 1)', 'return x + align - x%align')]),
 ('q-w16-small', 'W16', [(W, 'MaxInlineDataSize = BlockSize / 4', 'MaxInlineDataSize = BlockSize / 2')]),
]

bugs += [
 ('w08-epoch', 'W08', [(W, 'fi.ModTime() == time.Time{}', '!fi.ModTime().After(time.Unix(1, 0))')]),
 ('w15-nid16', 'W15', [(W, 'int64(nid)*InodeSlotSize', 'int64(uint16(nid))*InodeSlotSize')]),
]
