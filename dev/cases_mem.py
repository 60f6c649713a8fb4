from cases import A,AC,T,TC,E,R,W,K,M
bugs=[
 ('m04-sub','M04',[(M,'''	if !fs.ValidPath(path) {
		return nil, fmt.Errorf("invalid path: %s: %w", path, fs.ErrInvalid)
	}

	if path == "." {
		// root dir
		path = ""
	}

	dir, err := rootFS.getDir(path)''','''	path = strings.TrimSuffix(path, "/")

	if path == "." {
		// root dir
		path = ""
	}

	dir, err := rootFS.getDir(path)''')]),
 ('m04-errv','M04',[(M,'''		return fmt.Errorf("invalid path: %s: %w", path, fs.ErrInvalid)
	}

	if path == "." {
		// root dir always exists''','''		return fmt.Errorf("%w: invalid path: %s", errBadPath, path)
	}

	if path == "." {
		// root dir always exists'''),(M,'''// New creates''','''var errBadPath = errors.New("bad path")

// New creates''')]),
 ('m04-trim','M04',[(M,'''	if !fs.ValidPath(path) {
		return fmt.Errorf("invalid path: %s: %w", path, fs.ErrInvalid)
	}

	if path == "." {
		// root dir
		path = ""
	}

	if _, err''','''	path = strings.Trim(path, "/")
	if !fs.ValidPath(path) {
		return fmt.Errorf("invalid path: %s: %w", path, fs.ErrInvalid)
	}

	if path == "." {
		// root dir
		path = ""
	}

	if _, err''')]),
 ('m04-open','M04',[(M,'''			Err:  fs.ErrInvalid,
		}''','''			Err:  fs.ErrNotExist,
		}''')]),
 ('m05-perm','M05',[(M,'''		existingFile, ok := existing.(*File)
		if !ok {
			return nil, fmt.Errorf("path is a directory: %s: %w", path, fs.ErrExist)
		}
		perm = existingFile.perm
''','''		existingFile, ok := existing.(*File)
		if !ok {
			return nil, fmt.Errorf("path is a directory: %s: %w", path, fs.ErrExist)
		}
		if existingFile.perm == 0 {
			perm = existingFile.perm
		}
''')]),
 ('m05-dirlost','M05',[(M,'''		existingFile, ok := existing.(*File)
		if !ok {
			return nil, fmt.Errorf("path is a directory: %s: %w", path, fs.ErrExist)
		}
		perm = existingFile.perm
''','''		if existingFile, ok := existing.(*File); ok {
			perm = existingFile.perm
		} else if !empty(existing) {
			return nil, fmt.Errorf("path is a directory: %s: %w", path, fs.ErrExist)
		}
'''),(M,'''// New creates''','''func empty(c childI) bool {
	d := c.(*dir)
	d.mu.Lock()
	defer d.mu.Unlock()
	return len(d.children) == 0
}

// New creates''')]),
 ('m05-mkfile','M05',[(M,'''			if !ok {
				cur.mu.Unlock()
				return fmt.Errorf("not a directory: %s: %w", part, fs.ErrInvalid)
			}
			next = childDir
		}
		cur.mu.Unlock()''','''			if !ok {
				childDir = &dir{name: part, perm: perm, children: make(map[string]childI)}
				cur.children[part] = childDir
			}
			next = childDir
		}
		cur.mu.Unlock()''')]),
 ('m05-mklast','M05',[(M,'''	for _, part := range parts {
		cur := next
		cur.mu.Lock()''','''	for i, part := range parts {
		cur := next
		cur.mu.Lock()'''),(M,'''			if !ok {
				cur.mu.Unlock()
				return fmt.Errorf("not a directory: %s: %w", part, fs.ErrInvalid)''','''			if !ok {
				cur.mu.Unlock()
				if i == len(parts)-1 {
					return nil
				}
				return fmt.Errorf("not a directory: %s: %w", part, fs.ErrInvalid)''')]),
 ('m05-key','M05',[(M,'''	existing := dir.children[filePart]''','''	existing := dir.children[path]''')]),
 ('m06-stat','M06',[(M,'''	if f.closed {
		return nil, fs.ErrClosed
	}
	fi''','''	fi''')]),
 ('m06-twice','M06',[(M,'''	if f.closed {
		return fs.ErrClosed
	}
	f.closed = true''','''	f.closed = true''')]),
 ('m06-eof','M06',[(M,'''	if f.closed {
		return 0, fs.ErrClosed
	}
	return f''','''	if f.closed && f.content.Len() > 0 {
		return 0, fs.ErrClosed
	}
	return f''')]),
 ('m06-reset','M06',[(M,'''	if f.closed {
		return fs.ErrClosed
	}
	f.closed = true''','''	if f.closed {
		f.closed = false
		return fs.ErrClosed
	}
	f.closed = true'''),]),
]
quiet=[
 ('q-mem-valid','X',[(M,'''	if !fs.ValidPath(path) {
		return nil, fmt.Errorf("invalid path: %s: %w", path, fs.ErrInvalid)
	}

	if path == "." {
		// root dir
		path = ""
	}

	dir, err := rootFS.getDir(path)''','''	path, err := clean("sub", path)
	if err != nil {
		return nil, err
	}

	dir, err := rootFS.getDir(path)'''),(M,'''// New creates''','''func clean(op, name string) (string, error) {
	if fs.ValidPath(name) {
		if name == "." {
			return "", nil
		}
		return name, nil
	}
	return "", &fs.PathError{Op: op, Path: name, Err: fs.ErrInvalid}
}

// New creates''')]),
 ('q-mem-dirhelpers','X',[(M,'''		cur.mu.Lock()
		child := cur.children[part]
		if child == nil {
			newDir := &dir{
				name:     part,
				perm:     perm,
				children: make(map[string]childI),
			}
			cur.children[part] = newDir
			next = newDir
		} else {
			childDir, ok := child.(*dir)
			if !ok {
				cur.mu.Unlock()
				return fmt.Errorf("not a directory: %s: %w", part, fs.ErrInvalid)
			}
			next = childDir
		}
		cur.mu.Unlock()
	}

	return nil
}
''','''		var err error
		if next, err = cur.ensureDir(part, perm); err != nil {
			return err
		}
	}

	return nil
}

func newDir(name string, perm os.FileMode) *dir {
	return &dir{name: name, perm: perm, children: make(map[string]childI)}
}

func (d *dir) ensureDir(name string, perm os.FileMode) (*dir, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	child, found := d.children[name]
	if !found {
		made := newDir(name, perm)
		d.children[name] = made
		return made, nil
	}
	if sub, ok := child.(*dir); ok {
		return sub, nil
	}
	return nil, fmt.Errorf("not a directory: %s: %w", name, fs.ErrInvalid)
}
''')]),
 ('q-mem-create','X',[(M,'''	existing := dir.children[filePart]
	if existing != nil {
		existingFile, ok := existing.(*File)
		if !ok {
			return nil, fmt.Errorf("path is a directory: %s: %w", path, fs.ErrExist)
		}
		perm = existingFile.perm
	}

	newFile := &File{
		name:    filePart,
		perm:    perm,
		content: bytes.NewBuffer(bytes.Clone(data)),
	}
	dir.children[filePart] = newFile
''','''	newFile := &File{
		name:    filePart,
		content: bytes.NewBuffer(append([]byte(nil), data...)),
	}
	switch existing := dir.children[filePart].(type) {
	case nil:
		newFile.perm = perm
	case *File:
		newFile.perm = existing.perm
	default:
		return nil, fmt.Errorf("path is a directory: %s: %w", path, fs.ErrExist)
	}
	dir.children[filePart] = newFile
''')]),
 ('q-mem-closed','X',[(M,'''	if f.closed {
		return 0, fs.ErrClosed
	}
	return f''','''	if err := f.usable(); err != nil {
		return 0, err
	}
	return f'''),(M,'''	if f.closed {
		return fs.ErrClosed
	}
	f.closed = true
	return nil
}
''','''	if err := f.usable(); err != nil {
		return err
	}
	f.closed = true
	return nil
}

func (f *File) usable() error {
	if f.closed {
		return fmt.Errorf("%s: %w", f.name, fs.ErrClosed)
	}
	return nil
}
''')]),
]
