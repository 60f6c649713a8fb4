from cases import T
G='''			if existing, ok := dirents[dir]; ok && existing.Typeflag == tar.TypeDir {
				continue
			}

			dirents[dir] = &dirent{
				Header: tar.Header{
					Typeflag: tar.TypeDir,
					Name:     dir,
					Mode:     0o755,
				},
			}
'''
OWN='''		dirents[h.Name] = &dirent{
			Header: *h,
			data: func() io.Reader {
				return io.NewSectionReader(ra, begin, size)
			},
		}
'''
bugs = [
 ('r14-perm','R14',[(T,"		h.Name = sanitizePath(h.Name)\n","		h.Name = sanitizePath(h.Name)\n		if h.Typeflag == tar.TypeDir {\n			h.Mode |= 0o700 // directories can be entered\n		}\n")]),
 ('r14-part','R14',[(T,"			Header: *h,\n","			Header: tar.Header{Typeflag: h.Typeflag, Name: h.Name, Linkname: h.Linkname, Size: h.Size, Mode: h.Mode, Uid: h.Uid, Gid: h.Gid},\n")]),
 ('r14-none','R14',[(T,'''			if existing, ok := dirents[dir]; ok && existing.Typeflag == tar.TypeDir {
				continue
			}

''','')]),
 ('r14-data','R14',[(T,'ok && existing.Typeflag == tar.TypeDir {','ok && existing.data == nil {')]),
 ('r14-mode','R14',[(T,'ok && existing.Typeflag == tar.TypeDir {','ok && existing.Typeflag == tar.TypeDir && existing.Mode&0o777 == 0o755 {')]),
 ('r14-first','R14',[(T,OWN,'''		if existing, ok := dirents[h.Name]; ok && existing.Typeflag == tar.TypeDir {
			continue
		}

'''+OWN)]),
 ('r14-cont','R14',[(T,'''		case tar.TypeDir, tar.TypeLink, tar.TypeSymlink:
			// NOP
''','''		case tar.TypeDir:
			if h.Mode&0o7777 == 0o755 && h.Uid == 0 && h.Gid == 0 {
				continue // Same as the default.
			}
		case tar.TypeLink, tar.TypeSymlink:
			// NOP
''')]),
]
quiet = [
 ('q-r14-copy','R14',[(T,"		h.Name = sanitizePath(h.Name)\n","		hdr := *h\n		h = &hdr\n		h.Name = sanitizePath(h.Name)\n")]),
 ('q-r14-seen','R14',[(T,G,'''			if _, ok := dirents[dir]; ok && dirents[dir].Typeflag == tar.TypeDir {
				continue
			}
			dirents[dir] = defaultDir(dir)
'''),(T,'''func resolve(root *dirent''','''func defaultDir(name string) *dirent {
	d := &dirent{}
	d.Typeflag, d.Header.Name, d.Mode = tar.TypeDir, name, 0o755
	return d
}

func resolve(root *dirent''')]),
 ('q-r14-not','R14',[(T,G,'''			existing, ok := dirents[dir]
			if !ok || existing.Typeflag != tar.TypeDir {
				dirents[dir] = &dirent{
					Header: tar.Header{
						Typeflag: tar.TypeDir,
						Name:     dir,
						Mode:     0o755,
					},
				}
			}
''')]),
 ('q-r14-fn','R14',[(T,'''		// Create a default directory entry for each parent directory.
		for dir := path.Dir(h.Name); dir != "." && dir != "/"; dir = path.Dir(dir) {
			// Create a default directory entry if it doesn't exist.
			// Don't worry if we see one later, we'll just overwrite it.
'''+G+'''		}
''','''		addParents(dirents, h.Name)
'''),(T,'''func resolve(root *dirent''','''// addParents creates a default directory entry for each parent directory.
func addParents(dirents map[string]*dirent, name string) {
	for dir := path.Dir(name); dir != "." && dir != "/"; dir = path.Dir(dir) {
'''+G+'''	}
}

func resolve(root *dirent''')]),
 ('q-r14-own','R14',[(T,OWN,'''		d := newDirent(h)
		d.data = func() io.Reader {
			return io.NewSectionReader(ra, begin, size)
		}
		dirents[d.Header.Name] = d
'''),(T,'''func resolve(root *dirent''','''func newDirent(h *tar.Header) *dirent {
	return &dirent{Header: *h}
}

func resolve(root *dirent''')]),
 ('q-r14-len','R14',[(T,'''		if h.Name == "" {
			continue
		}
''','''		if len(h.Name) == 0 {
			continue
		}
''')]),
 ('q-r14-par','R14',[(T,'''		for dir := path.Dir(h.Name); dir != "." && dir != "/"; dir = path.Dir(dir) {''','''		dir := h.Name
		for {
			if dir = path.Dir(dir); dir == "." || dir == "/" {
				break
			}''')]),
]
