from cases import M
bugs = []
NEW = '''	newFile := &File{
		name:    filePart,
		perm:    perm,
		content: bytes.NewBuffer(bytes.Clone(data)),
	}
	dir.children[filePart] = newFile

	return newFile, nil
}
'''
HANDLE = '''		handle := &File{
			name:    cc.name,
			perm:    cc.perm,
			content: bytes.NewBuffer(cc.content.Bytes()),
		}
		return handle, nil
'''
GETDIR = '''	cur := rootFS.dir
	for _, part := range parts {
		err := func() error {
			cur.mu.Lock()
			defer cur.mu.Unlock()
			child := cur.children[part]
			if child == nil {
				return fmt.Errorf("not a directory: %s: %w", part, fs.ErrNotExist)
			} else {
				childDir, ok := child.(*dir)
				if !ok {
					return fmt.Errorf("no such file or directory: %s: %w", part, fs.ErrNotExist)
				}
				cur = childDir
			}
			return nil
		}()
		if err != nil {
			return nil, err
		}
	}
'''
MK = '''		cur := next
		cur.mu.Lock()
		child := cur.children[part]
		if child == nil {
			newDir := &dir{
				name:     part,
				perm:     perm,
				children: make(map[string]childI),
			}
			cur.children[part] = newDir
			next = newDir
		} else {
			childDir, ok := child.(*dir)
			if !ok {
				cur.mu.Unlock()
				return fmt.Errorf("not a directory: %s: %w", part, fs.ErrInvalid)
			}
			next = childDir
		}
		cur.mu.Unlock()
'''
LOOP = '''	for _, name := range names {
		child := d.dir.children[name]

		f, isFile := child.(*File)
		if isFile {
			stat, err := f.Stat()
			if err != nil {
				return nil, err
			}
			out = append(out, &dirEntry{
				info: stat,
			})
		} else {
			d := child.(*dir)
			fi := fileInfo{
				name:    d.name,
				size:    4096,
				modTime: d.modTime,
				mode:    d.perm | fs.ModeDir,
			}
			out = append(out, &dirEntry{
				info: &fi,
			})
		}

		d.idx++
	}
	return out, nil
}
'''
quiet = [
 ('q-mm-buf','M03',[(M,NEW,'''	var content bytes.Buffer
	content.Write(data)

	newFile := &File{
		name:    filePart,
		perm:    perm,
		content: &content,
	}
	dir.children[filePart] = newFile

	return newFile, nil
}
''')]),
 ('q-mm-new','M03',[(M,NEW,'''	newFile := newFile(filePart, data, perm)
	dir.children[filePart] = newFile

	return newFile, nil
}

func newFile(name string, data []byte, perm os.FileMode) *File {
	f := &File{name: name, perm: perm, content: &bytes.Buffer{}}
	f.content.Grow(len(data))
	f.content.Write(data)
	return f
}
''')]),
 ('q-mm-clone','M03',[(M,NEW,'''	stored := slices.Clone(data)
	newFile := new(File)
	newFile.name, newFile.perm = filePart, perm
	newFile.content = bytes.NewBuffer(stored)
	dir.children[filePart] = newFile

	return newFile, nil
}
''')]),
 ('q-mm-handle','M02',[(M,HANDLE,'''		return cc.handle(), nil
'''),(M,'''func (f *File) Stat() (fs.FileInfo, error) {''','''// handle returns a file that reads the same content from its start.
func (f *File) handle() *File {
	h := &File{name: f.name, perm: f.perm}
	h.content = bytes.NewBuffer(f.content.Bytes())
	return h
}

func (f *File) Stat() (fs.FileInfo, error) {''')]),
 ('q-mm-child','M02',[(M,GETDIR,'''	cur := rootFS.dir
	for _, part := range parts {
		child := cur.child(part)
		if child == nil {
			return nil, fmt.Errorf("not a directory: %s: %w", part, fs.ErrNotExist)
		}
		next, ok := child.(*dir)
		if !ok {
			return nil, fmt.Errorf("no such file or directory: %s: %w", part, fs.ErrNotExist)
		}
		cur = next
	}
'''),(M,'''type fhDir struct {''','''// child returns the entry with the given name, or nil.
func (d *dir) child(name string) childI {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.children[name]
}

type fhDir struct {''')]),
 ('q-mm-mk','M04',[(M,MK,'''		child, err := next.sub(part, perm)
		if err != nil {
			return err
		}
		next = child
'''),(M,'''type fhDir struct {''','''// sub returns the directory with the given name, and makes it if there is no such entry.
func (d *dir) sub(name string, perm os.FileMode) (*dir, error) {
	d.mu.Lock()
	defer d.mu.Unlock()

	if child, ok := d.children[name]; ok {
		if sub, ok := child.(*dir); ok {
			return sub, nil
		}
		return nil, fmt.Errorf("not a directory: %s: %w", name, fs.ErrInvalid)
	}

	sub := &dir{
		name:     name,
		perm:     perm,
		children: make(map[string]childI),
	}
	d.children[name] = sub
	return sub, nil
}

type fhDir struct {''')]),
 ('q-mm-loop','W14',[(M,LOOP,'''	for i := range names {
		switch child := d.dir.children[names[i]].(type) {
		case *File:
			stat, err := child.Stat()
			if err != nil {
				return nil, err
			}
			out = append(out, &dirEntry{info: stat})
		case *dir:
			out = append(out, &dirEntry{info: child.info()})
		}
		d.idx++
	}
	return out, nil
}

func (d *dir) info() *fileInfo {
	return &fileInfo{
		name:    d.name,
		size:    4096,
		modTime: d.modTime,
		mode:    d.perm | fs.ModeDir,
	}
}
'''),(M,'''	fi := fileInfo{
		name:    d.dir.name,
		size:    4096,
		modTime: d.dir.modTime,
		mode:    d.dir.perm | fs.ModeDir,
	}
	return &fi, nil
''','''	return d.dir.info(), nil
''')]),
 ('q-mm-keys','W14',[(M,'''	names := make([]string, 0, len(d.dir.children))
	for name := range d.dir.children {
		names = append(names, name)
	}

	slices.Sort(names)
''','''	names := d.dir.names()
'''),(M,'''type fhDir struct {''','''// names returns the sorted names of the entries. The caller holds the lock.
func (d *dir) names() []string {
	names := make([]string, len(d.children))
	i := 0
	for name := range d.children {
		names[i] = name
		i++
	}
	slices.SortFunc(names, strings.Compare)
	return names
}

type fhDir struct {''')]),
 ('q-mm-norm','M04',[(M,'''	if !fs.ValidPath(path) {
		return fmt.Errorf("invalid path: %s: %w", path, fs.ErrInvalid)
	}

	if path == "." {
		// root dir
		path = ""
	}

	if _, err := rootFS.create''','''	path, err := normalize(path)
	if err != nil {
		return err
	}

	if _, err := rootFS.create'''),(M,'''	if !fs.ValidPath(path) {
		return nil, fmt.Errorf("invalid path: %s: %w", path, fs.ErrInvalid)
	}

	if path == "." {
		// root dir
		path = ""
	}

	dir, err := rootFS.getDir(path)
''','''	path, err := normalize(path)
	if err != nil {
		return nil, err
	}

	dir, err := rootFS.getDir(path)
'''),(M,'''type fhDir struct {''','''// normalize checks path, and returns the empty string for the root directory.
func normalize(path string) (string, error) {
	if !fs.ValidPath(path) {
		return "", fmt.Errorf("invalid path: %s: %w", path, fs.ErrInvalid)
	}
	if path == "." {
		return "", nil
	}
	return path, nil
}

type fhDir struct {''')]),
 ('q-mm-closed','M06',[(M,'''func (f *File) Close() error {
	if f.closed {
		return fs.ErrClosed
	}
	f.closed = true
	return nil
}
''','''func (f *File) Close() error {
	if err := f.open(); err != nil {
		return err
	}
	f.closed = true
	return nil
}

func (f *File) open() error {
	if !f.closed {
		return nil
	}
	return fs.ErrClosed
}
'''),(M,'''	if f.closed {
		return 0, fs.ErrClosed
	}
	return f.content.Read(b)''','''	if err := f.open(); err != nil {
		return 0, err
	}
	n, err := f.content.Read(b)
	return n, err''')]),
 ('q-mm-lookup','M02',[(M,'''	child, err := rootFS.get(name)
	if err != nil {
		return nil, err
	}

	switch cc := child.(type) {
	case *File:
''','''	child, err := rootFS.get(name)
	if err != nil {
		return nil, err
	}

	if cc, ok := child.(*dir); ok {
		return &fhDir{dir: cc}, nil
	}

	switch cc := child.(type) {
	case *File:
''')]),
]
