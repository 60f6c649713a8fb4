from cases import A,T,E,R,M
bugs = [
 ('r21-nil','R21',[(T,'''	if d.data == nil {
		return &file{dirent: d, r: strings.NewReader("")}, nil
	}

''','')]),
 ('r21-root','R21',[(T,'''	if d.data == nil {
		return &file''','''	if d == &fsys.root {
		return &file''')]),
 ('r21-panic','R21',[(E,'''de.inode, de.inodeErr = de.image.Inode(de.nid)''','''de.inode, de.inodeErr = de.image.Inode(de.nid)
		if de.inodeErr != nil {
			panic(de.inodeErr)
		}''')]),
 ('r21-assert','R21',[(M,'''			childDir, ok := child.(*dir)
			if !ok {
				cur.mu.Unlock()
				return fmt.Errorf("not a directory: %s: %w", part, fs.ErrInvalid)
			}
			next = childDir''','''			next = child.(*dir)''')]),
]
quiet = [
 ('q-r21-helper','R21',[(T,'''	if d.data == nil {
		return &file{dirent: d, r: strings.NewReader("")}, nil
	}

	tr := tar.NewReader(d.data())
''','''	r := d.reader()
	if r == nil {
		return &file{dirent: d, r: strings.NewReader("")}, nil
	}

	tr := tar.NewReader(r)
'''),(T,'''func resolve(root *dirent''','''// reader returns what the entry was read from, or nil if it was not.
func (d *dirent) reader() io.Reader {
	if d.data != nil {
		return d.data()
	}
	return nil
}

func resolve(root *dirent''')]),
 ('q-r21-local','R21',[(T,'''	if d.data == nil {
		return &file{dirent: d, r: strings.NewReader("")}, nil
	}

	tr := tar.NewReader(d.data())
''','''	data := d.data
	if data == nil {
		return &file{dirent: d, r: strings.NewReader("")}, nil
	}

	tr := tar.NewReader(data())
''')]),
 ('q-r21-set','R21',[(T,'''	if d.data == nil {
		return &file{dirent: d, r: strings.NewReader("")}, nil
	}

	tr := tar.NewReader(d.data())
	if _, err := tr.Next(); err != nil {
		return nil, fmt.Errorf("failed to read file %s: %w", name, err)
	}

	return &file{dirent: d, r: tr}, nil
''','''	f := &file{dirent: d, r: strings.NewReader("")}
	if d.data != nil {
		tr := tar.NewReader(d.data())
		if _, err := tr.Next(); err != nil {
			return nil, fmt.Errorf("failed to read file %s: %w", name, err)
		}
		f.r = tr
	}

	return f, nil
''')]),
 ('q-r21-switch','R21',[(M,'''			childDir, ok := child.(*dir)
			if !ok {
				cur.mu.Unlock()
				return fmt.Errorf("not a directory: %s: %w", part, fs.ErrInvalid)
			}
			next = childDir''','''			switch c := child.(type) {
			case *dir:
				next = c
			case *File:
				cur.mu.Unlock()
				return fmt.Errorf("not a directory: %s: %w", part, fs.ErrInvalid)
			default:
				panic("unreachable")
			}''')]),
]
