from cases import A, AC, E, R, W, K
bugs = [
 ('r09-uidswap', 'R09', [(A, '&e.Uid:       line[28:34],\n		&e.Gid:       line[34:40],', '&e.Uid:       line[34:40],\n		&e.Gid:       line[28:34],')]),
 ('r09-timecol', 'R09', [(A, 'line[16:28]', 'line[16:26]')]),
 ('r09-sizecol', 'R09', [(A, 'line[48:58]', 'line[48:57]')]),
 ('r09-modebase', 'R09', [(A, 'string(line[40:48])), 8, 32)', 'string(line[40:48])), 10, 32)')]),
 ('r09-arsize', 'R09', [(A, '	return e.FileSize\n', '	return int64(int32(e.FileSize))\n')]),
 ('r09-artime', 'R09', [(A, 'time.Unix(e.Timestamp, 0)', 'time.Unix(int64(uint32(e.Timestamp)), 0)')]),
 ('r09-nogid', 'R09', [(A, '		&e.Gid:       line[34:40],\n', '')]),
 ('r09-nsec', 'R09', [(E, 'time.Unix(int64(fi.inode.Mtime()), int64(fi.inode.MtimeNsec()))', 'time.Unix(int64(fi.inode.Mtime()), 0)')]),
 ('r09-nsec2', 'R09', [(R, '		inode.mtimeNsec = ino.MtimeNsec\n', '')]),
 ('r09-compact', 'R09', [(R, '		inode.mtimeNsec = i.sb.BuildTimeNsec\n', '')]),
 ('r09-uid16', 'R09', [(R, 'inode.uid = ino.UID', 'inode.uid = ino.UID & 0xffff')]),
 ('r09-gid', 'R09', [(R, 'inode.gid = uint32(ino.GID)', 'inode.gid = uint32(int16(ino.GID))')]),
 ('r09-nlink', 'R09', [(R, 'inode.nlink = ino.Nlink', 'inode.nlink = uint32(uint16(ino.Nlink))')]),
 ('r09-size', 'R09', [(E, 'return int64(fi.inode.Size())', 'return int64(uint32(fi.inode.Size()))')]),
 ('r09-time32', 'R09', [(R, 'inode.mtime = ino.Mtime', 'inode.mtime = uint64(uint32(ino.Mtime))')]),
 ('r19-pad', 'R19', [(A, 'offset += int64(n) + e.FileSize + (e.FileSize % 2)', 'offset += int64(n) + (e.FileSize+3)&^3')]),
 ('r19-len', 'R19', [(A, 'io.NewSectionReader(ra, begin, e.FileSize)', 'io.NewSectionReader(ra, begin, int64(int32(e.FileSize)))')]),
 ('r19-even', 'R19', [(A, 'io.NewSectionReader(ra, begin, e.FileSize)', 'io.NewSectionReader(ra, begin, e.FileSize+e.FileSize%2)')]),
 ('r19-nopad', 'R19', [(A, 'offset += int64(n) + e.FileSize + (e.FileSize % 2)', 'offset += int64(n) + e.FileSize')]),
 ('r19-int', 'R19', [(A, 'begin := offset + int64(n)', 'begin := int64(int32(offset)) + int64(n)')]),
]
quiet = [
 ('q-r09-struct', 'R09', [(A, '''	for target, value := range map[*int64][]byte{
		&e.Timestamp: line[16:28],
		&e.Uid:       line[28:34],
		&e.Gid:       line[34:40],
		&e.FileSize:  line[48:58],
	} {
''', '''	for _, c := range []struct {
		target *int64
		value  []byte
	}{
		{&e.Timestamp, line[16:28]},
		{&e.Uid, line[28:34]},
		{&e.Gid, line[34:40]},
		{&e.FileSize, line[48:58]},
	} {
		target, value := c.target, c.value
''')]),
 ('q-r09-helper', 'R09', [(A, '''	for target, value := range map[*int64][]byte{
		&e.Timestamp: line[16:28],
		&e.Uid:       line[28:34],
		&e.Gid:       line[34:40],
		&e.FileSize:  line[48:58],
	} {
		input := strings.TrimSpace(string(value))
		if input == "" {
			continue
		}

		intValue, err := strconv.Atoi(input)
		if err != nil {
			return nil, fmt.Errorf("failed to parse entry value: %w", err)
		}
		*target = int64(intValue)
	}
''', '''	if e.Timestamp, err = parseNumber(line[16:28]); err != nil {
		return nil, err
	}
	if e.Uid, err = parseNumber(line[28:34]); err != nil {
		return nil, err
	}
	if e.Gid, err = parseNumber(line[34:40]); err != nil {
		return nil, err
	}
	if e.FileSize, err = parseNumber(line[48:58]); err != nil {
		return nil, err
	}
'''), (A, '// Given a brand', '''func parseNumber(b []byte) (int64, error) {
	s := strings.TrimSpace(string(b))
	if s == "" {
		return 0, nil
	}
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		return 0, fmt.Errorf("failed to parse entry value: %w", err)
	}
	return n, nil
}

// Given a brand''')]),
 ('q-r09-cols', 'R09', [(A, '	mode, err := strconv', '	owner := line[28:40]\n	mode, err := strconv'), (A, 'line[28:34]', 'owner[:6]'), (A, 'line[34:40]', 'owner[6:]')]),
 ('q-r09-info', 'R09', [(E, 'time.Unix(int64(fi.inode.Mtime()), int64(fi.inode.MtimeNsec()))', 'time.Unix(int64(fi.inode.mtime), int64(fi.inode.mtimeNsec)).Local()')]),
 ('q-r09-set', 'R09', [(R, '''		inode.size = ino.Size
		inode.nlink = ino.Nlink
		inode.mode = ino.Mode
		inode.uid = ino.UID
		inode.gid = ino.GID
		inode.mtime = ino.Mtime
		inode.mtimeNsec = ino.MtimeNsec
''', '''		inode.size, inode.nlink, inode.mode = ino.Size, ino.Nlink, ino.Mode
		inode.uid, inode.gid = ino.UID, ino.GID
		inode.setTime(ino.Mtime, ino.MtimeNsec)
'''), (R, '		inode.mtime = i.sb.BuildTime\n		inode.mtimeNsec = i.sb.BuildTimeNsec\n', '		inode.setTime(i.sb.BuildTime, i.sb.BuildTimeNsec)\n'), (R, '// bitRange returns', 'func (ino *Inode) setTime(s uint64, n uint32) { ino.mtime, ino.mtimeNsec = s, n }\n\n// bitRange returns')]),
 ('q-r19-and', 'R19', [(A, 'offset += int64(n) + e.FileSize + (e.FileSize % 2)', 'offset = begin + (e.FileSize+1)&^1')]),
 ('q-r19-odd', 'R19', [(A, 'offset += int64(n) + e.FileSize + (e.FileSize % 2)', 'offset = begin + e.FileSize\n		if offset%2 != 0 {\n			offset++\n		}')]),
 ('q-r19-helper', 'R19', [(A, '''		e.data = func() io.Reader {
			return io.NewSectionReader(ra, begin, e.FileSize)
		}
''', '		e.data = section(ra, begin, e.FileSize)\n'), (A, '// Open a file from', '''func section(ra io.ReaderAt, off, n int64) func() io.Reader {
	return func() io.Reader { return io.NewSectionReader(ra, off, n) }
}

// Open a file from''')]),
]
