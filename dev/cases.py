A='arfs/arfs.go'; AC='arfs/create.go'; T='tarfs/tarfs.go'; TC='tarfs/create.go'; E='erofs/erofs.go'; R='erofs/reader.go'; W='erofs/writer.go'; K='erofs/constants.go'; M='memfs/memfs.go'
bugs = [
 ('r07-shared-section', 'R07', [(A, '''		e.data = func() io.Reader {
			return io.NewSectionReader(ra, begin, e.FileSize)
		}''', '''		sr := io.NewSectionReader(ra, begin, e.FileSize)
		e.data = func() io.Reader {
			return sr
		}''')]),
 ('r07-stat-rename', 'R07', [(T, '''	renamed := *d
	renamed.Header.Name = name

	return renamed.Info()''', '''	d.Header.Name = name

	return d.Info()''')]),
 ('r07-cache-children', 'R07', [(T, '''type FS struct {
	root dirent
}''', '''type FS struct {
	root dirent
	lookups map[string]*dirent
}'''), (T, '''	return &FS{root: root}, nil''', '''	return &FS{root: root, lookups: map[string]*dirent{}}, nil'''), (T, '''	d, err := resolve(&fsys.root, name)
	if err != nil {
		return nil, err
	}

	// The root, and''', '''	d, ok := fsys.lookups[name]
	var err error
	if !ok {
		d, err = resolve(&fsys.root, name)
	}
	if err != nil {
		return nil, err
	}
	fsys.lookups[name] = d

	// The root, and''')]),
 ('r07-noonce', 'R07', [(E, '''	de.readInodeOnce.Do(func() {
		de.inode, de.inodeErr = de.image.Inode(de.nid)
	})
''', '''	if de.inode.image == nil && de.inodeErr == nil {
		de.inode, de.inodeErr = de.image.Inode(de.nid)
	}
''')]),
 ('r07-image-buf', 'R07', [(R, '''type Image struct {
	src io.ReaderAt
	sb  SuperBlock
}''', '''type Image struct {
	src io.ReaderAt
	sb  SuperBlock
	buf []byte
}'''), (R, '''	buf, err := i.bytesAt(off, 2)
	if err != nil {
		return 0, err
	}
	return binary.LittleEndian.Uint16(buf), nil''', '''	if i.buf == nil {
		i.buf = make([]byte, 2)
	}
	if _, err := i.src.ReadAt(i.buf, off); err != nil {
		return 0, err
	}
	return binary.LittleEndian.Uint16(i.buf), nil''')]),
 ('r07-global-cache', 'R07', [(A, '''func sanitizePath(name string) string {''', '''var lastName, lastClean string

func sanitizePath(name string) string {
	if name != "" && name == lastName {
		return lastClean
	}
	lastName = name
	lastClean = clean(name)
	return lastClean
}

func clean(name string) string {''')]),
 ('r07-sort-inplace', 'R07', [(A, '''	entries map[string]*Entry
}

// Open a new''', '''	entries map[string]*Entry
	list []fs.DirEntry
}

// Open a new'''), (A, '''	return &FS{entries: entries}, nil''', '''	var list []fs.DirEntry
	for _, e := range entries {
		list = append(list, e)
	}
	return &FS{entries: entries, list: list}, nil'''), (A, '''	var dirEntries []fs.DirEntry
	for _, dirent := range fsys.entries {
		dirEntries = append(dirEntries, dirent)
	}
''', '''	dirEntries := fsys.list
''')]),
 ('r07-reader-seek', 'R07', [(R, '''	buf := make([]byte, n)
	if _, err := i.src.ReadAt(buf, off); err != nil {''', '''	buf := make([]byte, n)
	if rs, ok := i.src.(io.ReadSeeker); ok {
		if _, err := rs.Seek(off, io.SeekStart); err != nil {
			return nil, err
		}
		if _, err := io.ReadFull(rs, buf); err != nil {
			return nil, err
		}
		return buf, nil
	}
	if _, err := i.src.ReadAt(buf, off); err != nil {''')]),
 ('m01-leak-create', 'M01', [(M, '''	dir.mu.Lock()
	defer dir.mu.Unlock()
	existing := dir.children[filePart]
	if existing != nil {
		existingFile, ok := existing.(*File)
		if !ok {
			return nil,''', '''	dir.mu.Lock()
	existing := dir.children[filePart]
	if existing != nil {
		existingFile, ok := existing.(*File)
		if !ok {
			return nil,'''), (M, '''	dir.children[filePart] = newFile
''', '''	dir.children[filePart] = newFile
	dir.mu.Unlock()
''')]),
 ('m01-selflock', 'M01', [(M, '''func (d *fhDir) Stat() (fs.FileInfo, error) {
''', '''func (d *fhDir) Stat() (fs.FileInfo, error) {
	d.dir.mu.Lock()
	defer d.dir.mu.Unlock()
'''), (M, '''	names := make([]string, 0, len(d.dir.children))
''', '''	if fi, err := d.Stat(); err != nil || !fi.IsDir() {
		return nil, err
	}

	names := make([]string, 0, len(d.dir.children))
''')]),
 ('m01-mkdir-mid', 'M01', [(M, '''			if !ok {
				cur.mu.Unlock()
				return fmt.Errorf''', '''			if !ok {
				return fmt.Errorf''')]),
 ('m01-order', 'M01', [(M, '''		if err != nil {
			return nil, err
		}
	}

	return chld, nil''', '''		if err != nil {
			return nil, err
		}
	}

	cur.mu.Lock()
	defer cur.mu.Unlock()
	rootFS.dir.mu.Lock()
	defer rootFS.dir.mu.Unlock()

	return chld, nil''')]),
 ('m02-readdir-nolock', 'M02', [(M, '''	d.dir.mu.Lock()
	defer d.dir.mu.Unlock()

	names :=''', '''	names :=''')]),
 ('m02-early-unlock', 'M02', [(M, '''		cur.mu.Lock()
		child := cur.children[part]
		if child == nil {
			newDir''', '''		cur.mu.Lock()
		child := cur.children[part]
		cur.mu.Unlock()
		if child == nil {
			newDir'''), (M, '''				cur.mu.Unlock()
				return fmt''', '''				return fmt'''), (M, '''			next = childDir
		}
		cur.mu.Unlock()
''', '''			next = childDir
		}
''')]),
 ('m02-wrong-lock', 'M02', [(M, '''	dir.mu.Lock()
	defer dir.mu.Unlock()
	existing''', '''	rootFS.dir.mu.Lock()
	defer rootFS.dir.mu.Unlock()
	existing''')]),
 ('m02-mutate-visible', 'M02', [(M, '''		perm = existingFile.perm
	}
''', '''		existingFile.content = bytes.NewBuffer(bytes.Clone(data))
		return existingFile, nil
	}
''')]),
 ('m02-late-modtime', 'M02', [(M, '''	if _, err := rootFS.create(path, data, perm); err != nil {
		return err
	}
	return nil''', '''	f, err := rootFS.create(path, data, perm)
	if err != nil {
		return err
	}
	f.modTime = f.modTime.UTC()
	return nil''')]),
 ('m02-touch-dir', 'M02', [(M, '''	dir.children[filePart] = newFile
''', '''	dir.children[filePart] = newFile
	dir.modTime = dir.modTime.Add(1)
''')]),
 ('m02-share-buffer', 'M02', [(M, '''			content: bytes.NewBuffer(cc.content.Bytes()),''', '''			content: cc.content,''')]),
 ('m03-noclone', 'M03', [(M, '''bytes.NewBuffer(bytes.Clone(data))''', '''bytes.NewBuffer(data)''')]),
 ('m03-readfile', 'M03', [(M, '''// Sub returns an FS''', '''// ReadFile reads the named file.
func (rootFS *FS) ReadFile(name string) ([]byte, error) {
	child, err := rootFS.get(name)
	if err != nil {
		return nil, err
	}
	f, ok := child.(*File)
	if !ok {
		return nil, fs.ErrInvalid
	}
	return f.content.Bytes(), nil
}

// Sub returns an FS''')]),
 ('m03-smallclone', 'M03', [(M, '''	newFile := &File{
		name:    filePart,
		perm:    perm,
		content: bytes.NewBuffer(bytes.Clone(data)),
	}''', '''	stored := data
	if cap(data) > len(data) {
		stored = bytes.Clone(data)
	}
	newFile := &File{
		name:    filePart,
		perm:    perm,
		content: bytes.NewBuffer(stored),
	}''')]),
 ('r08-hosts', 'R08', [(W, '''	if f, ok := w.dst.(*os.File); ok {''', '''	if f, ok := w.dst.(*os.File); ok {
		if err := os.Truncate(f.Name(), int64(sb.Blocks)*BlockSize); err != nil {
			return err
		}''')]),
]
quiet = [
 ('q-ar-helper', 'arfs', [(A, '''		n, err := ra.ReadAt(line, offset)
		if err != nil && !errors.Is(err, io.EOF) {
			return nil, err
		}
''', '''		n, err := readHeader(ra, line, offset)
		if err != nil {
			return nil, err
		}
'''), (A, '''// Open a file from the archive.''', '''func readHeader(ra io.ReaderAt, line []byte, offset int64) (int, error) {
	n, err := ra.ReadAt(line, offset)
	if err == nil || errors.Is(err, io.EOF) {
		return n, nil
	}
	return n, err
}

// Open a file from the archive.''')]),
 ('q-ar-parse', 'arfs', [(A, '''	for target, value := range map[*int64][]byte{
		&e.Timestamp: line[16:28],
		&e.Uid:       line[28:34],
		&e.Gid:       line[34:40],
		&e.FileSize:  line[48:58],
	} {
		input := strings.TrimSpace(string(value))
		if input == "" {
			continue
		}

		intValue, err := strconv.Atoi(input)
		if err != nil {
			return nil, fmt.Errorf("failed to parse entry value: %w", err)
		}
		*target = int64(intValue)
	}
''', '''	if e.Timestamp, err = parseField(line[16:28]); err != nil {
		return nil, err
	}
	if e.Uid, err = parseField(line[28:34]); err != nil {
		return nil, err
	}
	if e.Gid, err = parseField(line[34:40]); err != nil {
		return nil, err
	}
	if e.FileSize, err = parseField(line[48:58]); err != nil {
		return nil, err
	}
'''), (A, '''// Given a brand''', '''func parseField(b []byte) (int64, error) {
	input := strings.TrimSpace(string(b))
	if input == "" {
		return 0, nil
	}
	v, err := strconv.Atoi(input)
	if err != nil {
		return 0, fmt.Errorf("failed to parse entry value: %w", err)
	}
	return int64(v), nil
}

// Given a brand''')]),
 ('q-ar-sort', 'arfs', [(A, '''	var dirEntries []fs.DirEntry
	for _, dirent := range fsys.entries {
		dirEntries = append(dirEntries, dirent)
	}

	slices.SortFunc(dirEntries, func(a, b fs.DirEntry) int {
		return strings.Compare(a.Name(), b.Name())
	})

	return dirEntries, nil''', '''	return fsys.sorted(), nil'''), (A, '''// Stat a file in''', '''func (fsys *FS) sorted() []fs.DirEntry {
	out := make([]fs.DirEntry, 0, len(fsys.entries))
	for _, e := range fsys.entries {
		out = append(out, e)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

// Stat a file in'''), (A, '''	"slices"
''', '''	"sort"
''')]),
 ('q-ar-lookup', 'arfs', [(A, '''	name = sanitizePath(name)

	e, ok := fsys.entries[name]
	if !ok {
		return nil, fs.ErrNotExist
	}

	return &file''', '''	e, err := fsys.find(sanitizePath(name))
	if err != nil {
		return nil, err
	}

	return &file'''), (A, '''	e, ok := fsys.entries[name]
	if !ok {
		return nil, fs.ErrNotExist
	}

	return e, nil
}''', '''	e, err := fsys.find(name)
	if err != nil {
		return nil, err
	}

	return e, nil
}

func (fsys *FS) find(name string) (*Entry, error) {
	if e, ok := fsys.entries[name]; ok {
		return e, nil
	}
	return nil, fs.ErrNotExist
}''')]),
 ('q-arc-switch', 'arfs', [(AC, '''		if d.IsDir() {
			return errors.New("directories are not supported")
		}

		if d.Type()&fs.ModeSymlink != 0 {
			return errors.New("symlinks are not supported")
		}

		if !d.Type().IsRegular() {
			return fmt.Errorf("unsupported file type: %s", d.Type())
		}

		fi, err := d.Info()
		if err != nil {
			return err
		}

		hdr, err := tar.FileInfoHeader(fi, "")
		if err != nil {
			return err
		}

		// Write ar(1) header for the file
		if err := writeArHeader(dst, hdr); err != nil {
			return err
		}

		// Write file data (if not a directory)
		if !d.IsDir() {
			if err := writeArData(dst, src, d.Name(), hdr.Size); err != nil {
				return err
			}
		}
	}

	return nil
}''', '''		if err := writeEntry(dst, src, d); err != nil {
			return err
		}
	}

	return nil
}

func writeEntry(dst io.Writer, src fs.FS, d fs.DirEntry) error {
	switch typ := d.Type(); {
	case d.IsDir():
		return errors.New("directories are not supported")
	case typ&fs.ModeSymlink != 0:
		return errors.New("symlinks are not supported")
	case !typ.IsRegular():
		return fmt.Errorf("unsupported file type: %s", typ)
	}

	fi, err := d.Info()
	if err != nil {
		return err
	}

	hdr, err := tar.FileInfoHeader(fi, "")
	if err != nil {
		return err
	}

	err = writeArHeader(dst, hdr)
	if err == nil {
		err = writeArData(dst, src, d.Name(), hdr.Size)
	}
	return err
}''')]),
 ('q-arc-builder', 'arfs', [(AC, '''	arHeader := fmt.Sprintf(
		"%-16s%-12s%-6s%-6s%-8s%-10s`\\n",
		name,
		strconv.Itoa(int(hdr.ModTime.Unix())),
		strconv.Itoa(hdr.Uid),
		strconv.Itoa(hdr.Gid),
		fmt.Sprintf("%07o", hdr.Mode),
		fmt.Sprintf("%-10d", hdr.Size),
	)
''', '''	arHeader := fmt.Sprintf("%-16s%-12d%-6d%-6d", name, hdr.ModTime.Unix(), hdr.Uid, hdr.Gid)
	arHeader += fmt.Sprintf("%-8s%-10d", fmt.Sprintf("%07o", hdr.Mode), hdr.Size)
	arHeader += "`\\n"
'''), (AC, '''	"strconv"
''', '''''')]),
 ('q-tar-find', 'tarfs', [(T, '''	d, err := resolve(&fsys.root, filepath.Dir(name))
	if err != nil {
		return "", err
	}

	d, found := d.findChild(filepath.Base(name))
	if !found {
		return "", fs.ErrNotExist
	}

	if''', '''	d, err := fsys.lookupNoFollow(name)
	if err != nil {
		return "", err
	}

	if'''), (T, '''	d, err := resolve(&fsys.root, filepath.Dir(name))
	if err != nil {
		return nil, err
	}

	d, found := d.findChild(filepath.Base(name))
	if !found {
		return nil, fs.ErrNotExist
	}

	return d.Info()
}''', '''	d, err := fsys.lookupNoFollow(name)
	if err != nil {
		return nil, err
	}

	return d.Info()
}

func (fsys *FS) lookupNoFollow(name string) (*dirent, error) {
	dir, err := resolve(&fsys.root, filepath.Dir(name))
	if err != nil {
		return nil, err
	}

	d, found := dir.findChild(filepath.Base(name))
	if !found {
		return nil, fs.ErrNotExist
	}

	return d, nil
}''')]),
 ('q-tar-hard', 'tarfs', [(T, '''			target := d
			for depth := 0; target.Typeflag == tar.TypeLink; depth++ {
				name := sanitizePath(target.Linkname)

				var ok bool
				target, ok = dirents[name]
				if !ok {
					return nil, fmt.Errorf("failed to resolve hardlink %q: %w", name, fs.ErrNotExist)
				}
				if depth > len(dirents) {
					return nil, fmt.Errorf("hardlink %q points to itself: %w", name, fs.ErrInvalid)
				}
			}

			targetCopy''', '''			target, err := hardlinkTarget(dirents, d)
			if err != nil {
				return nil, err
			}

			targetCopy'''), (T, '''func (fsys *FS) Open(name string) (fs.File, error) {''', '''func hardlinkTarget(dirents map[string]*dirent, d *dirent) (*dirent, error) {
	for depth := 0; d.Typeflag == tar.TypeLink; depth++ {
		name := sanitizePath(d.Linkname)

		target, ok := dirents[name]
		if !ok {
			return nil, fmt.Errorf("failed to resolve hardlink %q: %w", name, fs.ErrNotExist)
		}
		if depth > len(dirents) {
			return nil, fmt.Errorf("hardlink %q points to itself: %w", name, fs.ErrInvalid)
		}
		d = target
	}
	return d, nil
}

func (fsys *FS) Open(name string) (fs.File, error) {''')]),
 ('q-tar-symlink', 'tarfs', [(T, '''			var err error
			if !filepath.IsAbs(target) && d.parent != nil {
				d, err = resolveAt(root, d.parent, target, links)
				if err != nil {
					return nil, err
				}
			} else {
				// The target is an absolute path or the dirent is the root dirent.
				d, err = resolveAt(root, root, target, links)
				if err != nil {
					return nil, err
				}
			}''', '''			// An absolute target starts at the root.
			start := root
			if !filepath.IsAbs(target) && d.parent != nil {
				start = d.parent
			}

			var err error
			d, err = resolveAt(root, start, target, links)
			if err != nil {
				return nil, err
			}''')]),
 ('q-tar-create', 'tarfs', [(TC, '''		f, err := src.Open(path)
		if err != nil {
			return err
		}

		_, err = io.Copy(tw, f)
		_ = f.Close()
		if err != nil {
			return err
		}

		return nil
	})''', '''		return copyFile(tw, src, path)
	})'''), (TC, '''// Create creates a tar''', '''func copyFile(tw *tar.Writer, src fs.FS, path string) error {
	f, err := src.Open(path)
	if err != nil {
		return err
	}
	defer f.Close()

	_, err = io.Copy(tw, f)
	return err
}

// Create creates a tar''')]),
 ('q-mem-lock', 'memfs', [(M, '''		err := func() error {
			cur.mu.Lock()
			defer cur.mu.Unlock()
			child := cur.children[part]
			if child == nil {
				return fmt.Errorf("not a directory: %s: %w", part, fs.ErrNotExist)
			} else {
				childDir, ok := child.(*dir)
				if !ok {
					return fmt.Errorf("no such file or directory: %s: %w", part, fs.ErrNotExist)
				}
				cur = childDir
			}
			return nil
		}()
		if err != nil {
			return nil, err
		}
''', '''		cur.mu.Lock()
		child := cur.children[part]
		cur.mu.Unlock()
		if child == nil {
			return nil, fmt.Errorf("not a directory: %s: %w", part, fs.ErrNotExist)
		}
		childDir, ok := child.(*dir)
		if !ok {
			return nil, fmt.Errorf("no such file or directory: %s: %w", part, fs.ErrNotExist)
		}
		cur = childDir
''')]),
 ('q-mem-child', 'memfs', [(M, '''type fhDir struct {''', '''func (d *dir) child(name string) childI {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.children[name]
}

func newDirectory(name string, perm os.FileMode) *dir {
	d := &dir{name: name, perm: perm}
	d.children = make(map[string]childI)
	return d
}

type fhDir struct {'''), (M, '''			cur.mu.Lock()
			defer cur.mu.Unlock()
			child := cur.children[part]
			if child == nil {
				return nil, fmt''', '''			child := cur.child(part)
			if child == nil {
				return nil, fmt'''), (M, '''			newDir := &dir{
				name:     part,
				perm:     perm,
				children: make(map[string]childI),
			}''', '''			newDir := newDirectory(part, perm)''')]),
 ('q-mem-mkdir', 'memfs', [(M, '''		cur := next
		cur.mu.Lock()
		child := cur.children[part]
		if child == nil {
			newDir := &dir{
				name:     part,
				perm:     perm,
				children: make(map[string]childI),
			}
			cur.children[part] = newDir
			next = newDir
		} else {
			childDir, ok := child.(*dir)
			if !ok {
				cur.mu.Unlock()
				return fmt.Errorf("not a directory: %s: %w", part, fs.ErrInvalid)
			}
			next = childDir
		}
		cur.mu.Unlock()
''', '''		sub, err := next.ensure(part, perm)
		if err != nil {
			return err
		}
		next = sub
'''), (M, '''func (rootFS *FS) getDir(''', '''func (d *dir) ensure(part string, perm os.FileMode) (*dir, error) {
	d.mu.Lock()
	defer d.mu.Unlock()

	switch child := d.children[part].(type) {
	case nil:
		sub := &dir{name: part, perm: perm, children: map[string]childI{}}
		d.children[part] = sub
		return sub, nil
	case *dir:
		return child, nil
	default:
		return nil, fmt.Errorf("not a directory: %s: %w", part, fs.ErrInvalid)
	}
}

func (rootFS *FS) getDir(''')]),
 ('q-mem-rw', 'memfs', [(M, '''	mu       sync.Mutex
''', '''	mu       sync.RWMutex
'''), (M, '''	d.dir.mu.Lock()
	defer d.dir.mu.Unlock()
''', '''	d.dir.mu.RLock()
	defer d.dir.mu.RUnlock()
''')]),
 ('q-mem-readdir', 'memfs', [(M, '''		f, isFile := child.(*File)
		if isFile {
			stat, err := f.Stat()
			if err != nil {
				return nil, err
			}
			out = append(out, &dirEntry{
				info: stat,
			})
		} else {
			d := child.(*dir)
			fi := fileInfo{
				name:    d.name,
				size:    4096,
				modTime: d.modTime,
				mode:    d.perm | fs.ModeDir,
			}
			out = append(out, &dirEntry{
				info: &fi,
			})
		}
''', '''		var info fs.FileInfo
		switch c := child.(type) {
		case *File:
			stat, err := c.Stat()
			if err != nil {
				return nil, err
			}
			info = stat
		case *dir:
			info = c.info()
		}
		out = append(out, &dirEntry{info: info})
'''), (M, '''func (d *fhDir) Stat() (fs.FileInfo, error) {
	fi := fileInfo{
		name:    d.dir.name,
		size:    4096,
		modTime: d.dir.modTime,
		mode:    d.dir.perm | fs.ModeDir,
	}
	return &fi, nil
}''', '''func (d *dir) info() *fileInfo {
	return &fileInfo{
		name:    d.name,
		size:    4096,
		modTime: d.modTime,
		mode:    d.perm | fs.ModeDir,
	}
}

func (d *fhDir) Stat() (fs.FileInfo, error) {
	return d.dir.info(), nil
}''')]),
 ('q-ero-inode', 'erofs', [(E, '''	de.readInodeOnce.Do(func() {
		de.inode, de.inodeErr = de.image.Inode(de.nid)
	})

	return de.inode, de.inodeErr''', '''	de.readInodeOnce.Do(de.loadInode)

	return de.inode, de.inodeErr
}

func (de *dirEntry) loadInode() {
	de.inode, de.inodeErr = de.image.Inode(de.nid)''')]),
 ('q-ero-info', 'erofs', [(E, '''	de, err := fsys.resolve(name, false)
	if err != nil {
		return nil, err
	}

	ino, err := de.getInode()
	if err != nil {
		return nil, err
	}

	return &fileInfo{
		image: de.image,
		name:  de.name,
		inode: ino,
	}, nil
}

// ReadLink returns''', '''	de, err := fsys.resolve(name, false)
	if err != nil {
		return nil, err
	}

	return de.Info()
}

// ReadLink returns''')]),
 ('q-ero-lookup', 'erofs', [(R, '''	for dLeft <= dRight {
		// The sum will never lead to a uint16 overflow, as the maximum value of
		// the operands is MaxUint16/DirentSize.
		mid := (dLeft + dRight) >> 1
		direntOff := int64(targetBlock.base) + int64(mid)*DirentSize
		d, err := ino.image.direntAt(direntOff)
		if err != nil {
			return Dirent{}, err
		}
		dName, err := ino.getDirentName(d, direntOff, targetBlock, mid == targetNumDirents-1)
		if err != nil {
			return Dirent{}, err
		}
		switch bytes.Compare(nameBytes, dName) {
		case 0:
			// Found the target dirent.
			return *d, nil
		case 1:
			// name > dName.
			dLeft = mid + 1
		case -1:
			// name < dName.
			dRight = mid - 1
		}
	}
''', '''	for dLeft <= dRight {
		mid := dLeft + (dRight-dLeft)/2
		direntOff := int64(targetBlock.base) + int64(mid)*DirentSize
		d, err := ino.image.direntAt(direntOff)
		if err != nil {
			return Dirent{}, err
		}
		dName, err := ino.getDirentName(d, direntOff, targetBlock, mid == targetNumDirents-1)
		if err != nil {
			return Dirent{}, err
		}
		c := bytes.Compare(nameBytes, dName)
		if c == 0 {
			return *d, nil
		}
		if c > 0 {
			dLeft = mid + 1
		} else {
			dRight = mid - 1
		}
	}
''')]),
 ('q-ero-iter', 'erofs', [(R, '''	for blockIdx := uint64(0); blockIdx < uint64(ino.blocks); blockIdx++ {
		block := ino.getBlockDataInfo(blockIdx)
		d, err := ino.getDirent0(block)
		if err != nil {
			return err
		}
		// Iterate all the dirents in this block.
		numDirents := d.NameOff / uint16(DirentSize)
		direntOff := int64(block.base)
		for {
			name, err := ino.getDirentName(d, direntOff, block, numDirents == 1)
			if err != nil {
				return err
			}
			if err := cb(string(name), d.FileType, d.Nid); err != nil {
				return err
			}
			if numDirents--; numDirents == 0 {
				break
			}

			direntOff += DirentSize
			d, err = ino.image.direntAt(direntOff)
			if err != nil {
				return err
			}
		}
	}
	return nil
}''', '''	for blockIdx := uint64(0); blockIdx < uint64(ino.blocks); blockIdx++ {
		if err := ino.iterBlock(ino.getBlockDataInfo(blockIdx), cb); err != nil {
			return err
		}
	}
	return nil
}

func (ino *Inode) iterBlock(block blockData, cb func(name string, typ uint8, nid uint64) error) error {
	d, err := ino.getDirent0(block)
	if err != nil {
		return err
	}
	direntOff := int64(block.base)
	for left := d.NameOff / uint16(DirentSize); left > 0; left-- {
		name, err := ino.getDirentName(d, direntOff, block, left == 1)
		if err != nil {
			return err
		}
		if err := cb(string(name), d.FileType, d.Nid); err != nil {
			return err
		}
		if left == 1 {
			break
		}
		direntOff += DirentSize
		if d, err = ino.image.direntAt(direntOff); err != nil {
			return err
		}
	}
	return nil
}''')]),
 ('q-ero-inodehdr', 'erofs', [(W, '''		var nid uint32
		switch ino := ino.(type) {
		case InodeCompact:
			nid = ino.Ino
		case InodeExtended:
			nid = ino.Ino
		default:
			return fmt.Errorf("unsupported inode type %T", ino)
		}
''', '''		nid, err := w.nidForPath(path)
		if err != nil {
			return err
		}
''')]),
 ('q-ero-copy', 'erofs', [(W, '''			// Write the inlined data.
			n, err := io.Copy(io.NewOffsetWriter(w.dst, off+int64(binary.Size(ino))), data)
			_ = data.Close()
			if err != nil {
				return fmt.Errorf("failed to write inline data for %q: %w", path, err)
			}
			if n != inodeSize(ino) {
				return fmt.Errorf("size of %q changed: expected %d bytes, copied %d", path, inodeSize(ino), n)
			}
''', '''			// Write the inlined data.
			if err := w.copyTo(off+int64(binary.Size(ino)), data, inodeSize(ino)); err != nil {
				return fmt.Errorf("failed to write inline data for %q: %w", path, err)
			}
'''), (W, '''		n, err := io.Copy(io.NewOffsetWriter(w.dst, int64(rawBlockAddr)*BlockSize), data)
		_ = data.Close()
		if err != nil {
			return fmt.Errorf("failed to write data for %q: %w", path, err)
		}
		if n != inodeSize(ino) {
			return fmt.Errorf("size of %q changed: expected %d bytes, copied %d", path, inodeSize(ino), n)
		}
''', '''		if err := w.copyTo(int64(rawBlockAddr)*BlockSize, data, inodeSize(ino)); err != nil {
			return fmt.Errorf("failed to write data for %q: %w", path, err)
		}
'''), (W, '''func (w *writer) populateInodes() error {''', '''func (w *writer) copyTo(off int64, data io.ReadCloser, want int64) error {
	defer data.Close()

	n, err := io.Copy(io.NewOffsetWriter(w.dst, off), data)
	if err != nil {
		return err
	}
	if n != want {
		return fmt.Errorf("size changed: expected %d bytes, copied %d", want, n)
	}
	return nil
}

func (w *writer) populateInodes() error {''')]),
 ('q-ero-dirents', 'erofs', [(W, '''		for _, de := range entries {
			nid, err := w.nidForPath(filepath.Clean(filepath.Join(path, de.Name())))
			if err != nil {
				return nil, 0, err
			}

			dirents = append(dirents, Dirent{
				Nid:      uint64(nid),
				FileType: uint8(fileTypeFromFileMode(de.Type())),
			})
			names = append(names, de.Name())
		}
''', '''		for i := range entries {
			name := entries[i].Name()
			nid, err := w.nidForPath(filepath.Join(path, name))
			if err != nil {
				return nil, 0, err
			}

			names = append(names, name)
			dirents = append(dirents, Dirent{
				FileType: fileTypeFromFileMode(entries[i].Type()),
				Nid:      uint64(nid),
			})
		}
''')]),
 ('q-ero-mode', 'erofs', [(K, '''	switch mode & fs.ModeType {
	case fs.ModeDir:
		stMode |= S_IFDIR
	case fs.ModeSymlink:
		stMode |= S_IFLNK
	case fs.ModeDevice:
		stMode |= S_IFBLK
	case fs.ModeDevice | fs.ModeCharDevice, fs.ModeCharDevice:
		stMode |= S_IFCHR
	case fs.ModeNamedPipe:
		stMode |= S_IFIFO
	case fs.ModeSocket:
		stMode |= S_IFSOCK
	default:
		stMode |= S_IFREG
	}
''', '''	stMode |= statType(mode)
'''), (K, '''func statModeFromFileMode(''', '''func statType(mode fs.FileMode) uint16 {
	switch {
	case mode&fs.ModeType == fs.ModeDir:
		return S_IFDIR
	case mode&fs.ModeType == fs.ModeSymlink:
		return S_IFLNK
	case mode&fs.ModeType == fs.ModeDevice:
		return S_IFBLK
	case mode&fs.ModeType == fs.ModeNamedPipe:
		return S_IFIFO
	case mode&fs.ModeType == fs.ModeSocket:
		return S_IFSOCK
	case mode&fs.ModeCharDevice != 0 && mode&fs.ModeType&^(fs.ModeDevice|fs.ModeCharDevice) == 0:
		return S_IFCHR
	}
	return S_IFREG
}

func statModeFromFileMode(''')]),
]

bugs += [
 ('w01-walk-notexist', 'W01', [(TC, '''		f, err := src.Open(path)
		if err != nil {
			return err
		}
''', '''		f, err := src.Open(path)
		if errors.Is(err, fs.ErrNotExist) {
			// removed while we were walking
			return nil
		}
		if err != nil {
			return err
		}
''')]),
 ('w01-copy-err', 'W01', [(TC, '''		_, err = io.Copy(tw, f)
		_ = f.Close()
		if err != nil {
			return err
		}
''', '''		_, copyErr := io.Copy(tw, f)
		if closeErr := f.Close(); closeErr != nil {
			err = copyErr
		}
		if err != nil {
			return err
		}
''')]),
 ('w01-walk-err-skip', 'W01', [(W, '''		if err != nil {
			return err
		}

		fi, err := d.Info()
		if err != nil {
			return err
		}
''', '''		if err != nil {
			if d != nil && d.IsDir() {
				return fs.SkipDir
			}
			return err
		}

		fi, err := d.Info()
		if err != nil {
			return err
		}
''')]),
 ('w01-named', 'W01', [(W, '''func (w *writer) writeData() error {
	for _, path''', '''func (w *writer) writeData() (err error) {
	for _, path'''), (W, '''		n, err := io.Copy(io.NewOffsetWriter(w.dst, int64(rawBlockAddr)*BlockSize), data)
		_ = data.Close()
		if err != nil {
			return fmt.Errorf("failed to write data for %q: %w", path, err)
		}
		if n != inodeSize(ino) {''', '''		n, err := io.Copy(io.NewOffsetWriter(w.dst, int64(rawBlockAddr)*BlockSize), data)
		if cerr := data.Close(); cerr != nil {
			err = cerr
		} else if n == inodeSize(ino) {
			err = nil
		}
		if err != nil {
			return fmt.Errorf("failed to write data for %q: %w", path, err)
		}
		if n != inodeSize(ino) {'''), ]),
 ('w01-pad', 'W01', [(AC, '''		if _, err := io.WriteString(w, "\\n"); err != nil {
			return err
		}
	}

	return nil
}''', '''		_, _ = io.WriteString(w, "\\n")
	}

	return nil
}''')]),
 ('w01-truncate', 'W01', [(W, '''		if err := f.Truncate(int64(sb.Blocks) * BlockSize); err != nil {
			return fmt.Errorf("failed to truncate destination file: %w", err)
		}''', '''		_ = f.Truncate(int64(sb.Blocks) * BlockSize)''')]),
 ('w01-inline-break', 'W01', [(W, '''			if err != nil {
				return fmt.Errorf("failed to write inline data for %q: %w", path, err)
			}''', '''			if err != nil {
				break
			}''')]),
 ('w01-link', 'W01', [(TC, '''			link, err = linkFS.ReadLink(path)
			if err != nil {
				return err
			}
''', '''			link, _ = linkFS.ReadLink(path)
''')]),
 ('w01-defer-close', 'W06', [(TC, '''	return tw.Close()
''', '''	defer tw.Close()
	return nil
''')]),
 ('w06-close-early', 'W06', [(TC, '''	tw := tar.NewWriter(dst)
''', '''	tw := tar.NewWriter(dst)

	if entries, err := fs.ReadDir(src, "."); err == nil && len(entries) == 0 {
		return nil
	}
''')]),
 ('w06-sb-first', 'W06', [(W, '''	if err := w.writeMetadata(metaBlockAddr); err != nil {
		return fmt.Errorf("failed to write metadata blocks: %w", err)
	}

	if err := w.writeData(); err != nil {
		return fmt.Errorf("failed to write data blocks: %w", err)
	}

''', '''	if err := w.writeData(); err != nil {
		return fmt.Errorf("failed to write data blocks: %w", err)
	}

'''), (W, '''	if f, ok := w.dst.(*os.File); ok {''', '''	if err := w.writeMetadata(metaBlockAddr); err != nil {
		return fmt.Errorf("failed to write metadata blocks: %w", err)
	}

	if f, ok := w.dst.(*os.File); ok {''')]),
 ('w06-bufio', 'W06', [(AC, '''	entries, err := fs.ReadDir(src, ".")
	if err != nil {
		return err
	}
''', '''	entries, err := fs.ReadDir(src, ".")
	if err != nil {
		return err
	}

	buf := bufio.NewWriter(dst)
	defer buf.Flush()
	dst = buf
'''), (AC, '''import (
''', '''import (
	"bufio"
''')]),
 ('w11-nostatclose', 'W11', [(W, '''			_ = f.Close()
			return nil, 0, fmt.Errorf("failed to stat source file %q: %w", path, err)''', '''			return nil, 0, fmt.Errorf("failed to stat source file %q: %w", path, err)''')]),
 ('w11-copyerr', 'W11', [(TC, '''		_, err = io.Copy(tw, f)
		_ = f.Close()
		if err != nil {
			return err
		}

		return nil''', '''		_, err = io.Copy(tw, f)
		if err != nil {
			return err
		}

		return f.Close()''')]),
 ('w11-first', 'W11', [(W, '''		_ = data.Close()

		if size < 0 ||''', '''		if size == 0 {
			_ = data.Close()
		}

		if size < 0 ||''')]),
]
quiet += [
 ('q-tarc-defer', 'X', [(TC, '''		_, err = io.Copy(tw, f)
		_ = f.Close()
		if err != nil {
			return err
		}

		return nil''', '''		defer func() { _ = f.Close() }()

		if _, err := io.Copy(tw, f); err != nil {
			return fmt.Errorf("copying %s: %w", path, err)
		}
		return nil'''), (TC, '''	"errors"
''', '''	"errors"
	"fmt"
''')]),
 ('q-tarc-join', 'X', [(TC, '''		_, err = io.Copy(tw, f)
		_ = f.Close()
		if err != nil {
			return err
		}

		return nil''', '''		_, err = io.Copy(tw, f)
		return errors.Join(err, f.Close())'''), (TC, '''	if err != nil {
		return err
	}

	// Write the trailer''', '''	if err != nil {
		_ = tw.Close()
		return err
	}

	// Write the trailer''')]),
 ('q-tarc-method', 'X', [(TC, '''func Create(dst io.Writer, src fs.FS) error {
	tw := tar.NewWriter(dst)

	err := fs.WalkDir(src, ".", func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
''', '''func Create(dst io.Writer, src fs.FS) error {
	c := &creator{tw: tar.NewWriter(dst), src: src}
	if err := fs.WalkDir(src, ".", c.visit); err != nil {
		return err
	}
	return c.tw.Close()
}

type creator struct {
	tw  *tar.Writer
	src fs.FS
}

func (c *creator) visit(path string, d fs.DirEntry, err error) error {
	src, tw := c.src, c.tw
	{
		if err != nil {
			return err
		}
'''), (TC, '''		return nil
	})
	if err != nil {
		return err
	}

	// Write the trailer, this also fails if the final file was shorter than its
	// header promised.
	return tw.Close()
}''', '''		return nil
	}
}''')]),
 ('q-arc-bufio', 'X', [(AC, '''	entries, err := fs.ReadDir(src, ".")
	if err != nil {
		return err
	}
''', '''	entries, err := fs.ReadDir(src, ".")
	if err != nil {
		return err
	}

	buf := bufio.NewWriter(dst)
	dst = buf
'''), (AC, '''import (
''', '''import (
	"bufio"
'''), (AC, '''	return nil
}

func writeArHeader''', '''	return buf.Flush()
}

func writeArHeader''')]),
 ('q-arc-named', 'X', [(AC, '''func writeArData(w io.Writer, src fs.FS, path string, size int64) error {
	// Open the file to read its data
	file, err := src.Open(path)
	if err != nil {
		return err
	}
	defer file.Close()
''', '''func writeArData(w io.Writer, src fs.FS, path string, size int64) (err error) {
	// Open the file to read its data
	file, err := src.Open(path)
	if err != nil {
		return err
	}
	defer func() {
		if cerr := file.Close(); cerr != nil && err == nil {
			err = cerr
		}
	}()
''')]),
 ('q-erow-sbbuf', 'X', [(W, '''	if err := binary.Write(io.NewOffsetWriter(w.dst, SuperBlockOffset), binary.LittleEndian, &sb); err != nil {
		return fmt.Errorf("failed to write superblock: %w", err)
	}
''', '''	var buf bytes.Buffer
	_ = binary.Write(&buf, binary.LittleEndian, &sb)
	if _, err := w.dst.WriteAt(buf.Bytes(), SuperBlockOffset); err != nil {
		return fmt.Errorf("failed to write superblock: %w", err)
	}
''')]),
 ('q-erow-ignorebuf', 'X', [(W, '''			if _, err := buf.WriteString(name); err != nil {
				return nil, fmt.Errorf("failed to write name: %w", err)
			}''', '''			buf.WriteString(name)''')]),
 ('q-erow-steps', 'X', [(W, '''	if err := w.writeMetadata(metaBlockAddr); err != nil {
		return fmt.Errorf("failed to write metadata blocks: %w", err)
	}

	if err := w.writeData(); err != nil {
		return fmt.Errorf("failed to write data blocks: %w", err)
	}
''', '''	for _, step := range []func() error{
		func() error { return w.writeMetadata(metaBlockAddr) },
		w.writeData,
	} {
		if err := step(); err != nil {
			return fmt.Errorf("failed to write blocks: %w", err)
		}
	}
''')]),
 ('q-erow-copy', 'X', [(W, '''		data, _, err := w.dataForInode(path, ino)
		if err != nil {
			return fmt.Errorf("failed to get data for %q: %w", path, err)
		}

		n, err := io.Copy(io.NewOffsetWriter(w.dst, int64(rawBlockAddr)*BlockSize), data)
		_ = data.Close()
		if err != nil {
			return fmt.Errorf("failed to write data for %q: %w", path, err)
		}
		if n != inodeSize(ino) {
			return fmt.Errorf("size of %q changed: expected %d bytes, copied %d", path, inodeSize(ino), n)
		}
	}

	return nil
}
''', '''		if err := w.copyData(path, ino, int64(rawBlockAddr)*BlockSize); err != nil {
			return err
		}
	}

	return nil
}

func (w *writer) copyData(path string, ino any, off int64) error {
	data, _, err := w.dataForInode(path, ino)
	if err != nil {
		return fmt.Errorf("failed to get data for %q: %w", path, err)
	}
	defer data.Close()

	n, err := io.Copy(io.NewOffsetWriter(w.dst, off), data)
	if err == nil && n != inodeSize(ino) {
		err = errors.New("size changed")
	}
	if err != nil {
		return fmt.Errorf("failed to write data for %q: %w", path, err)
	}
	return nil
}
''')]),
]

bugs += [
 ('r16-iter', 'R16', [(R, '''			d, err = ino.image.direntAt(direntOff)
			if err != nil {
				return err
			}
		}
	}
	return nil''', '''			d, err = ino.image.direntAt(direntOff)
			if err != nil {
				break
			}
		}
	}
	return nil''')]),
 ('r16-lookup', 'R16', [(E, '''	d, err := ino.Lookup(name)
	if err != nil {
		return nil, err
	}''', '''	d, err := ino.Lookup(name)
	if err != nil {
		return nil, fs.ErrNotExist
	}''')]),
 ('r16-tar-next', 'R16', [(T, '''			if errors.Is(err, io.EOF) {
				break
			}

			return nil, err''', '''			if errors.Is(err, io.EOF) || len(dirents) > 0 {
				break
			}

			return nil, err''')]),
 ('r16-parse', 'R16', [(A, '''		if err != nil {
			return nil, fmt.Errorf("failed to parse entry value: %w", err)
		}
		*target = int64(intValue)''', '''		if err == nil {
			*target = int64(intValue)
		}''')]),
 ('r16-off', 'R16', [(T, '''	n, err = f.ra.ReadAt(p, f.offset)
	f.offset += int64(n)
	return''', '''	n, err = f.ra.ReadAt(p, f.offset)
	f.offset += int64(n)
	if n == 0 && err != nil {
		err = io.EOF
	}
	return''')]),
 ('r16-once', 'R16', [(E, '''		de.inode, de.inodeErr = de.image.Inode(de.nid)
	})

	return de.inode, de.inodeErr''', '''		inode, err := de.image.Inode(de.nid)
		if err == nil {
			de.inode = inode
		}
	})

	return de.inode, de.inodeErr''')]),
 ('r16-shadow', 'R16', [(T, '''	if _, err := tr.Next(); err != nil {
		return nil, fmt.Errorf("failed to read file %s: %w", name, err)
	}
''', '''	_, err = tr.Next()
	if err == io.ErrUnexpectedEOF {
		return nil, fmt.Errorf("failed to read file %s: %w", name, err)
	}
''')]),
 ('r16-iodata', 'R16', [(E, '''		f.r, err = ino.Data()
		if err != nil {
			return 0, err
		}''', '''		f.r, err = ino.Data()
		if err != nil {
			return 0, io.EOF
		}''')]),
 ('r04-tar', 'R04', [(T, '''			if errors.Is(err, io.EOF) {
				break''', '''			if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {
				break''')]),
 ('r04-copy', 'R04', [(T, '''			if _, err := io.Copy(io.Discard, tr); err != nil {''', '''			if _, err := io.Copy(io.Discard, tr); err != nil && !errors.Is(err, io.ErrUnexpectedEOF) {''')]),
 ('r04-arhdr', 'R04', [(A, '''		if n == 0 {
			break''', '''		if err != nil || n < 60 {
			break''')]),
 ('r04-bytes', 'R04', [(R, '''	if n, err := i.src.ReadAt(buf, off); n != len(buf) {
		return nil, fmt''', '''	if n, err := i.src.ReadAt(buf, off); err != nil && err != io.EOF || n == 0 {
		return nil, fmt''')]),
 ('r04-unmarshal', 'R04', [(R, '''		binary.LittleEndian, data); err != nil {
		return err''', '''		binary.LittleEndian, data); err != nil && err != io.ErrUnexpectedEOF {
		return err''')]),
 ('r04-iter', 'R04', [(R, '''		d, err := ino.getDirent0(block)
		if err != nil {
			return err
		}
		// Iterate''', '''		d, err := ino.getDirent0(block)
		if errors.Is(err, io.EOF) {
			break
		}
		if err != nil {
			return err
		}
		// Iterate''')]),
 ('r17-checkar', 'R17', [(A, '''ra.ReadAt(header, 0); n != len(header) {''', '''ra.ReadAt(header, 0); n != len(header) || err != nil {''')]),
 ('r17-last', 'R17', [(A, '''		if err != nil && !errors.Is(err, io.EOF) {
			return nil, err
		}

		// The archive can''', '''		if err != nil {
			if errors.Is(err, io.EOF) {
				break
			}
			return nil, err
		}

		// The archive can''')]),
]

quiet += [
 ('q-readfullat', 'X', [(R, '''	buf := make([]byte, n)
	if n, err := i.src.ReadAt(buf, off); n != len(buf) {
		return nil, fmt.Errorf("failed to read %d bytes at offset %d: %w", len(buf), off, err)
	}
	return buf, nil
}''', '''	buf := make([]byte, n)
	if err := readFullAt(i.src, buf, off); err != nil {
		return nil, err
	}
	return buf, nil
}

func readFullAt(src io.ReaderAt, buf []byte, off int64) error {
	got, err := src.ReadAt(buf, off)
	if got == len(buf) {
		return nil
	}
	if err == nil || errors.Is(err, io.EOF) {
		err = io.ErrUnexpectedEOF
	}
	return fmt.Errorf("failed to read at offset %d: %w", off, err)
}''')]),
 ('q-readfullsec', 'X', [(R, '''	if n, err := i.src.ReadAt(buf, off); n != len(buf) {
		return nil, fmt.Errorf("failed to read %d bytes at offset %d: %w", len(buf), off, err)
	}''', '''	if _, err := io.ReadFull(io.NewSectionReader(i.src, off, n), buf); err != nil {
		return nil, fmt.Errorf("failed to read %d bytes at offset %d: %w", len(buf), off, err)
	}''')]),
 ('q-ar-hdrhelper', 'X', [(A, '''		line := make([]byte, 60)

		n, err := ra.ReadAt(line, offset)
		if err != nil && !errors.Is(err, io.EOF) {
			return nil, err
		}

		// The archive can only end cleanly between two entries.
		if n == 0 {
			break
		}
		if n != 60 {
			return nil, errors.New("short read")
		}
''', '''		line, err := readHeader(ra, offset)
		if errors.Is(err, errEnd) {
			break
		}
		if err != nil {
			return nil, err
		}
		n := len(line)
'''), (A, '''// Open a file from the archive.''', '''var errEnd = errors.New("end of archive")

func readHeader(ra io.ReaderAt, offset int64) ([]byte, error) {
	line := make([]byte, 60)
	switch n, err := ra.ReadAt(line, offset); {
	case n == len(line):
		return line, nil
	case err != nil && !errors.Is(err, io.EOF):
		return nil, err
	case n > 0:
		return nil, io.ErrUnexpectedEOF
	}
	return nil, errEnd
}

// Open a file from the archive.''')]),
 ('q-ar-hdrhelper2', 'X', [(A, '''		line := make([]byte, 60)

		n, err := ra.ReadAt(line, offset)
		if err != nil && !errors.Is(err, io.EOF) {
			return nil, err
		}

		// The archive can only end cleanly between two entries.
		if n == 0 {
			break
		}
		if n != 60 {
			return nil, errors.New("short read")
		}
''', '''		line, err := readHeader(ra, offset)
		if err != nil {
			return nil, err
		}
		if line == nil {
			break
		}
		n := len(line)
'''), (A, '''// Open a file from the archive.''', '''func readHeader(ra io.ReaderAt, offset int64) ([]byte, error) {
	line := make([]byte, 60)
	n, err := ra.ReadAt(line, offset)
	if n == 60 {
		return line, nil
	}
	if n == 0 && err == io.EOF {
		return nil, nil
	}
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return nil, err
}

// Open a file from the archive.''')]),
]
import importlib, os as _os
for _m in sorted(f[:-3] for f in _os.listdir(_os.path.dirname(_os.path.abspath(__file__))) if f.startswith('cases_') and f.endswith('.py')):
    _c = importlib.import_module(_m)
    bugs += _c.bugs
    quiet += _c.quiet
