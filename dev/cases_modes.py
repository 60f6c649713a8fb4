from cases import A,AC,T,TC,E,R,W,K,M
bugs=[
 ('w09-setgid-reg','W09',[(K,'''	if mode&fs.ModeSetgid != 0 {''','''	if mode&fs.ModeSetgid != 0 && mode.IsRegular() {''')]),
 ('w09-permmask','W09',[(R,'''	mode := fs.FileMode(ino.mode) & fs.ModePerm
''','''	mode := fs.FileMode(ino.mode) & 0o775
''')]),
 ('w09-swap','W09',[(K,'''	S_ISGID  = 02000
	S_ISVTX  = 01000''','''	S_ISGID  = 01000
	S_ISVTX  = 02000''')]),
 ('w09-isdir','W09',[(R,'''	return ino.mode&S_IFMT == S_IFDIR''','''	return ino.mode&S_IFDIR == S_IFDIR''')]),
 ('w09-extperm','W09',[(W,'''		Mode:      statModeFromFileMode(fi.Mode()),''','''		Mode:      statModeFromFileMode(fi.Mode() & (fs.ModeType | fs.ModePerm)),''')]),
 ('w09-ft','W09',[(W,'''				FileType: uint8(fileTypeFromFileMode(de.Type())),''','''				FileType: direntType(de),'''),(W,'''// nidForPath returns''','''func direntType(de fs.DirEntry) uint8 {
	if de.IsDir() {
		return FT_DIR
	}
	return FT_REG_FILE
}

// nidForPath returns''')]),
 ('w09-chardev','W09',[(R,'''		mode |= fs.ModeDevice | fs.ModeCharDevice''','''		mode |= fs.ModeCharDevice''')]),
 ('w09-sticky','W09',[(R,'''	if ino.mode&S_ISVTX != 0 {''','''	if ino.IsDir() && ino.mode&S_ISVTX != 0 {''')]),
 ('r12-tartype','R12',[(T,'''	case tar.TypeReg, tar.TypeGNUSparse:
		return 0
''','''	case tar.TypeReg:
		return 0
''')]),
 ('r12-erofs','R12',[(E,'''	ino, err := de.getInode()
	if err != nil {
		return 0
	}

	return ino.Mode()
}''','''	switch de.typ {
	case FT_DIR:
		return fs.ModeDir
	case FT_SYMLINK:
		return fs.ModeSymlink
	case FT_CHRDEV, FT_BLKDEV:
		return fs.ModeDevice
	case FT_FIFO:
		return fs.ModeNamedPipe
	case FT_SOCK:
		return fs.ModeSocket
	}
	return 0
}''')]),
 ('r12-armode','R12',[(A,'''	return e.FileMode & fs.ModeType''','''	return e.FileMode & (fs.ModeDir | fs.ModeSymlink)''')]),
 ('r12-arisdir','R12',[(A,'''	return e.FileMode&fs.ModeDir != 0''','''	return e.FileMode.IsDir() && e.FileSize == 0''')]),
 ('r12-tarisdir','R12',[(T,'''	return d.Typeflag == tar.TypeDir
}''','''	return d.Typeflag == tar.TypeDir || len(d.children) > 0
}''')]),
 ('r12-meminfo','R12',[(M,'''	return de.info.Mode().Type()''','''	return de.info.Mode() & fs.ModeSymlink''')]),
 ('w13-ar-fifo','W13',[(AC,'''		if !d.Type().IsRegular() {
			return fmt.Errorf("unsupported file type: %s", d.Type())
		}
''','''		if d.Type()&(fs.ModeDevice|fs.ModeSocket|fs.ModeIrregular) != 0 {
			return fmt.Errorf("unsupported file type: %s", d.Type())
		}
''')]),
 ('w13-ar-dir','W13',[(AC,'''			return errors.New("directories are not supported")''','''			continue'''),(AC,'''			return errors.New("symlinks are not supported")''','''			return errors.New("links are not supported")''')]),
 ('w13-ero-default','W13',[(W,'''	default:
		return nil, 0, fmt.Errorf("unsupported file type %o", mode&S_IFMT)
	}
}''','''	case S_IFCHR, S_IFBLK, S_IFIFO:
		return io.NopCloser(bytes.NewReader(nil)), 0, nil

	default:
		return nil, 0, fmt.Errorf("unsupported file type %o", mode&S_IFMT)
	}
}''')]),
 ('w13-ero-skip','W13',[(W,'''		nlink := 1
''','''		if fi.Mode()&(fs.ModeSocket|fs.ModeNamedPipe) != 0 {
			return nil
		}

		nlink := 1
''')]),
 ('w13-tar-skip','W13',[(TC,'''		if err != nil {
			return err
		}
		hdr.Name = path''','''		if err != nil {
			if d.Type()&fs.ModeSocket != 0 {
				return nil
			}
			return err
		}
		hdr.Name = path''')]),
]
quiet=[
 ('q-modetable','X',[(R,'''	if ino.IsDir() {
		mode |= fs.ModeDir
	}
	if ino.IsCharDev() {
		mode |= fs.ModeDevice | fs.ModeCharDevice
	}
	if ino.IsBlockDev() {
		mode |= fs.ModeDevice
	}
	if ino.IsFIFO() {
		mode |= fs.ModeNamedPipe
	}
	if ino.IsSocket() {
		mode |= fs.ModeSocket
	}
	if ino.IsSymlink() {
		mode |= fs.ModeSymlink
	}
''','''	mode |= typeModes[ino.mode&S_IFMT]
'''),(R,'''// UID returns''','''var typeModes = map[uint16]fs.FileMode{
	S_IFDIR:  fs.ModeDir,
	S_IFCHR:  fs.ModeDevice | fs.ModeCharDevice,
	S_IFBLK:  fs.ModeDevice,
	S_IFIFO:  fs.ModeNamedPipe,
	S_IFSOCK: fs.ModeSocket,
	S_IFLNK:  fs.ModeSymlink,
}

// UID returns''')]),
 ('q-modeloop','X',[(K,'''	if mode&fs.ModeSetuid != 0 {
		stMode |= S_ISUID
	}
	if mode&fs.ModeSetgid != 0 {
		stMode |= S_ISGID
	}
	if mode&fs.ModeSticky != 0 {
		stMode |= S_ISVTX
	}
''','''	for _, b := range []struct {
		m fs.FileMode
		s uint16
	}{{fs.ModeSetuid, S_ISUID}, {fs.ModeSetgid, S_ISGID}, {fs.ModeSticky, S_ISVTX}} {
		if mode&b.m == b.m {
			stMode |= b.s
		}
	}
''')]),
 ('q-toinode','X',[(W,'''	// Can we use a compact inode?
	compact := fi.Size() <= math.MaxUint32 &&
		uid <= math.MaxUint16 && gid <= math.MaxUint16 && nlink <= math.MaxUint16 &&
		fi.ModTime() == time.Time{}

	if compact {
		return InodeCompact{
			Format: setBits(0, InodeLayoutCompact, InodeLayoutBit, InodeLayoutBits),
			Mode:   statModeFromFileMode(fi.Mode()),
			Nlink:  uint16(nlink),
			UID:    uint16(uid),
			GID:    uint16(gid),
		}, nil
	}

	return InodeExtended{
		Format:    setBits(0, InodeLayoutExtended, InodeLayoutBit, InodeLayoutBits),
		Mode:      statModeFromFileMode(fi.Mode()),
		Nlink:     uint32(nlink),
		UID:       uint32(uid),
		GID:       uint32(gid),
		Mtime:     uint64(fi.ModTime().Unix()),
		MtimeNsec: uint32(fi.ModTime().Nanosecond()),
	}, nil
}
''','''	mode := statModeFromFileMode(fi.Mode())
	if !needsExtended(fi, uid, gid, nlink) {
		return newCompact(mode, uid, gid, nlink), nil
	}

	ext := InodeExtended{Mode: mode, Nlink: uint32(nlink), UID: uint32(uid), GID: uint32(gid)}
	ext.Format = setBits(ext.Format, InodeLayoutExtended, InodeLayoutBit, InodeLayoutBits)
	mtime := fi.ModTime()
	ext.MtimeNsec = uint32(mtime.Nanosecond())
	ext.Mtime = uint64(mtime.Unix())
	return ext, nil
}

func needsExtended(fi fs.FileInfo, uid, gid, nlink int) bool {
	if fi.Size() > math.MaxUint32 || nlink > math.MaxUint16 {
		return true
	}
	if max(uid, gid) > math.MaxUint16 {
		return true
	}
	return fi.ModTime() != time.Time{}
}

func newCompact(mode uint16, uid, gid, nlink int) InodeCompact {
	var ino InodeCompact
	ino.Format = setBits(0, InodeLayoutCompact, InodeLayoutBit, InodeLayoutBits)
	ino.Mode = mode
	ino.Nlink = uint16(nlink)
	ino.UID, ino.GID = uint16(uid), uint16(gid)
	return ino
}
''')]),
 ('q-arrefuse','X',[(AC,'''		if d.IsDir() {
			return errors.New("directories are not supported")
		}

		if d.Type()&fs.ModeSymlink != 0 {
			return errors.New("symlinks are not supported")
		}

		if !d.Type().IsRegular() {
			return fmt.Errorf("unsupported file type: %s", d.Type())
		}

		fi, err := d.Info()
		if err != nil {
			return err
		}
''','''		if err := supported(d); err != nil {
			return err
		}

		fi, err := d.Info()
		if err != nil {
			return err
		}
'''),(AC,'''		// Write file data (if not a directory)
		if !d.IsDir() {
			if err := writeArData(dst, src, d.Name(), hdr.Size); err != nil {
				return err
			}
		}
''','''		if err := writeArData(dst, src, d.Name(), hdr.Size); err != nil {
			return err
		}
'''),(AC,'''func writeArHeader(''','''func supported(d fs.DirEntry) error {
	switch t := d.Type(); {
	case t.IsRegular():
		return nil
	case t.IsDir():
		return errors.New("directories are not supported")
	case t&fs.ModeSymlink != 0:
		return errors.New("symlinks are not supported")
	default:
		return fmt.Errorf("unsupported file type: %s", t)
	}
}

func writeArHeader(''')]),
 ('q-ero-early','X',[(W,'''		nlink := 1
''','''		if t := fi.Mode().Type(); t != 0 && t != fs.ModeDir && t != fs.ModeSymlink {
			return fmt.Errorf("unsupported file type %v of %q", t, path)
		}

		nlink := 1
''')]),
 ('q-tartype','X',[(T,'''	switch d.Typeflag {
	case tar.TypeReg, tar.TypeGNUSparse:
		return 0
	case tar.TypeSymlink:
		return fs.ModeSymlink
	case tar.TypeChar:
		return fs.ModeCharDevice
	case tar.TypeBlock:
		return fs.ModeDevice
	case tar.TypeDir:
		return fs.ModeDir
	case tar.TypeFifo:
		return fs.ModeNamedPipe
	default:
		return fs.ModeIrregular
	}''','''	return d.FileInfo().Mode().Type()''')]),
]
