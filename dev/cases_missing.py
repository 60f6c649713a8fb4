from cases import A,AC,T,TC,E,R,W,K,M
bugs=[
 ('r13-ar-stat','R13',[(A,'''	e, ok := fsys.entries[name]
	if !ok {
		return nil, fs.ErrNotExist
	}

	return e, nil''','''	e, ok := fsys.entries[name]
	if !ok {
		return nil, fs.ErrInvalid
	}

	return e, nil''')]),
 ('r13-ar-open','R13',[(A,'''	if !ok {
		return nil, fs.ErrNotExist
	}

	return &file{''','''	if !ok {
		return nil, fmt.Errorf("%s: %v", name, fs.ErrNotExist)
	}

	return &file{''')]),
 ('r13-tar-parent','R13',[(T,'''		if !found {
			return nil, fs.ErrNotExist
		}

		if d.Type()''','''		if !found {
			if base == root {
				return nil, fs.ErrNotExist
			}
			return nil, fmt.Errorf("dangling symbolic link: %s", component)
		}

		if d.Type()''')]),
 ('r13-tar-readdir','R13',[(T,'''	d, err := resolve(&fsys.root, name)
	if err != nil {
		return nil, err
	}

	var children''','''	d, err := resolve(&fsys.root, name)
	if errors.Is(err, fs.ErrNotExist) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}

	var children''')]),
 ('r13-tar-link','R13',[(T,'''	if d.Type()&fs.ModeSymlink == 0 {
		return "", fs.ErrInvalid
	}
''','''	if d.IsDir() {
		return "", fs.ErrInvalid
	}
''')]),
 ('r13-tar-statlink','R13',[(T,'''	d, found := d.findChild(filepath.Base(name))
	if !found {
		return nil, fs.ErrNotExist
	}

	return d.Info()''','''	if c, found := d.findChild(filepath.Base(name)); found {
		d = c
	}

	return d.Info()''')]),
 ('r13-e-lookup','R13',[(R,'''			dRight = mid - 1
		}
	}

	return Dirent{}, fs.ErrNotExist''','''			dRight = mid - 1
		}
	}

	return Dirent{}, fmt.Errorf("no entry %q at inode %d", name, ino.Nid())''')]),
 ('r13-e-swallow','R13',[(E,'''		child, err := de.lookup(comp)
		if err != nil {
			return nil, "", err
		}
''','''		child, err := de.lookup(comp)
		if err != nil {
			return nil, "", fs.ErrNotExist
		}
''')]),
 ('r13-e-wrap','R13',[(E,'''			child, childPath, err = fsys.resolveLinks(path.Clean(link), false, links)
			if err != nil {
				return nil, "", err
			}
		}
''','''			child, childPath, err = fsys.resolveLinks(path.Clean(link), false, links)
			if err != nil {
				return nil, "", err
			}
		}
		if i < len(components)-1 && !child.IsDir() {
			return nil, "", errors.New("not a directory")
		}
'''),(E,'''	d, err := ino.Lookup(name)
	if err != nil {
		return nil, err
	}
''','''	d, err := ino.Lookup(name)
	if err != nil {
		return nil, fmt.Errorf("failed to look up %q: %s", name, err)
	}
''')]),
 ('r13-e-readlink','R13',[(R,'''	if !ino.IsSymlink() {
		return "", fs.ErrInvalid
	}
''','''	if ino.IsDir() {
		return "", fs.ErrInvalid
	}
''')]),
 ('r13-ar-empty','R13',[(A,'''	e, ok := fsys.entries[name]
	if !ok {
		return nil, fs.ErrNotExist
	}

	return &file{''','''	e, ok := fsys.entries[name]
	if !ok || e.FileSize == 0 {
		return nil, fs.ErrNotExist
	}

	return &file{''')]),
 ('r13-e-mid','R13',[(R,'''	if targetBlock.base == 0 {
		// The target block was not found.
		return Dirent{}, fs.ErrNotExist
	}
''','''	if targetBlock.base == 0 {
		// The target block was not found.
		return Dirent{}, nil
	}
''')]),
]
quiet=[
 ('q-r13-patherr',None,[(A,'''	if !ok {
		return nil, fs.ErrNotExist
	}

	return &file{''','''	if !ok {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}

	return &file{''')]),
 ('q-r13-find',None,[(A,'''	e, ok := fsys.entries[name]
	if !ok {
		return nil, fs.ErrNotExist
	}

	return &file{''','''	e, err := fsys.find(name)
	if err != nil {
		return nil, err
	}

	return &file{'''),(A,'''// ReadDir reads''','''func (fsys *FS) find(name string) (*Entry, error) {
	if e := fsys.entries[name]; e != nil {
		return e, nil
	}
	return nil, fmt.Errorf("%s: %w", name, fs.ErrNotExist)
}

// ReadDir reads'''),(A,'''	e, ok := fsys.entries[name]
	if !ok {
		return nil, fs.ErrNotExist
	}

	return e, nil''','''	e, err := fsys.find(name)
	if err != nil {
		return nil, err
	}

	return e, nil''')]),
 ('q-r13-tarsplit',None,[(T,'''		var found bool
		d, found = d.findChild(component)
		if !found {
			return nil, fs.ErrNotExist
		}

		if d.Type()&fs.ModeSymlink != 0 {''','''		child, found := d.findChild(component)
		if found {
			d = child
		} else {
			return nil, fs.ErrNotExist
		}

		if d.Typeflag == tar.TypeSymlink {''')]),
 ('q-r13-lookupsplit',None,[(R,'''		switch bytes.Compare(nameBytes, dName) {
		case 0:
			// Found the target dirent.
			return *d, nil
		case 1:
			// name > dName.
			dLeft = mid + 1
		case -1:
			// name < dName.
			dRight = mid - 1
		}
	}
''','''		c := bytes.Compare(nameBytes, dName)
		if c == 0 {
			return *d, nil
		} else if c > 0 {
			dLeft = mid + 1
		} else {
			dRight = mid - 1
		}
	}
''')]),
]
