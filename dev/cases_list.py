from cases import A,AC,T,TC,E,R,W,K,M
ARS='''	slices.SortFunc(dirEntries, func(a, b fs.DirEntry) int {
		return strings.Compare(a.Name(), b.Name())
	})
'''
ARL='''	for _, dirent := range fsys.entries {
		dirEntries = append(dirEntries, dirent)
	}
'''
TS='''	slices.SortFunc(children, func(a, b fs.DirEntry) int {
		return strings.Compare(a.Name(), b.Name())
	})
'''
TL='''	for _, child := range d.children {
		children = append(children, child)
	}
'''
EC='''		// Skip "." and ".." entries.
		if name == "." || name == ".." {
			return nil
		}
'''
imp=lambda f,*ps:[(f,'import (\n','import (\n'+''.join(f'\t"{p}"\n' for p in ps))]
bugs=[
 ('r10-ar-fold','R10',[(A,'strings.Compare(a.Name(), b.Name())','strings.Compare(strings.ToLower(a.Name()), strings.ToLower(b.Name()))')]),
 ('r10-ar-hidden','R10',[(A,ARL,'''	for name, dirent := range fsys.entries {
		if strings.HasPrefix(name, ".") {
			continue
		}
		dirEntries = append(dirEntries, dirent)
	}
''')]),
 ('r10-ar-hidden2','R10',[(A,ARL,'''	for name, dirent := range fsys.entries {
		if len(name) > 0 && name[0] == '.' {
			continue
		}
		dirEntries = append(dirEntries, dirent)
	}
''')]),
 ('r10-ar-cap','R10',[(A,ARS,ARS+'''
	if len(dirEntries) > 1024 {
		dirEntries = dirEntries[:1024]
	}
''')]),
 ('r10-ar-len','R10',[(A,'return strings.Compare(a.Name(), b.Name())','''if n := len(a.Name()) - len(b.Name()); n != 0 {
			return n
		}
		return strings.Compare(a.Name(), b.Name())''')]),
 ('r10-ar-empty','R10',[(A,ARL,'''	for _, dirent := range fsys.entries {
		if dirent.FileSize == 0 {
			continue
		}
		dirEntries = append(dirEntries, dirent)
	}
''')]),
 ('r10-ar-single','R10',[(A,'	var dirEntries []fs.DirEntry\n','''	if len(fsys.entries) > 65535 {
		return nil, nil
	}

	var dirEntries []fs.DirEntry
''')]),
 ('r10-tar-dirs','R10',[(T,TS,'''	slices.SortFunc(children, func(a, b fs.DirEntry) int {
		if a.IsDir() != b.IsDir() {
			if a.IsDir() {
				return -1
			}
			return 1
		}
		return strings.Compare(a.Name(), b.Name())
	})
''')]),
 ('r10-tar-desc','R10',[(T,TS,TS+'''	slices.Reverse(children)
''')]),
 ('r10-tar-fullname','R10',[(T,TS,'''	slices.SortFunc(children, func(a, b fs.DirEntry) int {
		return strings.Compare(strings.TrimSuffix(a.Name(), ".gz"), strings.TrimSuffix(b.Name(), ".gz"))
	})
''')]),
 ('r10-tar-num','R10',[(T,TS,'''	slices.SortFunc(children, func(a, b fs.DirEntry) int {
		na, errA := strconv.Atoi(a.Name())
		nb, errB := strconv.Atoi(b.Name())
		if errA == nil && errB == nil {
			return na - nb
		}
		return strings.Compare(a.Name(), b.Name())
	})
'''),(T,'	"slices"\n','	"slices"\n	"strconv"\n')]),
 ('r10-tar-type','R10',[(T,TL,'''	for _, child := range d.children {
		if child.Typeflag == tar.TypeLink || child.Type() == fs.ModeIrregular {
			continue
		}
		children = append(children, child)
	}
''')]),
 ('r10-tar-wh','R10',[(T,TL,'''	for _, child := range d.children {
		if strings.HasPrefix(child.Name(), ".wh.") {
			continue
		}
		children = append(children, child)
	}
''')]),
 ('r10-tar-twice','R10',[(T,TL,'''	for _, child := range d.children {
		children = append(children, child)
		if child.Typeflag == tar.TypeSymlink && child.Linkname == child.Header.Name {
			children = append(children, child)
		}
	}
''')]),
 ('r10-tar-break','R10',[(T,TL,'''	for _, child := range d.children {
		children = append(children, child)
		if len(children) == 4096 {
			break
		}
	}
''')]),
 ('r10-tar-one','R10',[(T,TS,'''	slices.SortFunc(children[1:], func(a, b fs.DirEntry) int {
		return strings.Compare(a.Name(), b.Name())
	})
''')]),
 ('r10-ero-hidden','R10',[(E,EC,'''		// Skip "." and ".." entries.
		if strings.HasPrefix(name, ".") {
			return nil
		}
''')]),
 ('r10-ero-trim','R10',[(E,EC,'''		// Skip "." and ".." entries.
		if strings.Trim(name, ".") == "" {
			return nil
		}
''')]),
 ('r10-ero-dotdot','R10',[(E,EC,'''		// Skip the "." entry.
		if name == "." {
			return nil
		}
''')]),
 ('r10-ero-short','R10',[(E,EC,'''		// Skip "." and ".." entries.
		if len(name) <= 2 && name[0] == '.' {
			return nil
		}
''')]),
 ('r10-ero-self','R10',[(E,EC,EC+'''
		// Skip the directory itself.
		if nid == de.nid {
			return nil
		}
''')]),
 ('r10-ero-unknown','R10',[(E,EC,EC+'''
		if typ == 0 || typ > 7 {
			return nil
		}
''')]),
 ('r10-ero-rename','R10',[(E,EC,EC+'''
		if len(dirents) > 0 && dirents[len(dirents)-1].Name() == name {
			return nil
		}
''')]),
 ('r10-mem-fold','R10',[(M,'''	slices.Sort(names)

	// Skip''','''	slices.SortFunc(names, func(a, b string) int {
		return strings.Compare(strings.ToUpper(a), strings.ToUpper(b))
	})

	// Skip''')]),
 ('r10-mem-hidden','R10',[(M,'''	for name := range d.dir.children {
		names = append(names, name)
	}

	slices.Sort(names)''','''	for name := range d.dir.children {
		if strings.HasPrefix(name, ".tmp") {
			continue
		}
		names = append(names, name)
	}

	slices.Sort(names)''')]),
 ('r10-mem-dirs','R10',[(M,'''			out = append(out, &dirEntry{
				info: &fi,
			})
''','''			if len(d.children) > 0 {
				out = append(out, &dirEntry{
					info: &fi,
				})
			}
''')]),
 ('r10-mem-natural','R10',[(M,'''	slices.Sort(names)

	// Skip''','''	_ = slices.Max[[]string]
	sort.Slice(names, func(i, j int) bool {
		if len(names[i]) != len(names[j]) {
			return len(names[i]) < len(names[j])
		}
		return names[i] < names[j]
	})

	// Skip'''),(M,'	"slices"\n','	"slices"\n	"sort"\n')]),
]
quiet=[
 ('q-list-less','R10',[(A,ARS,'''	sort.Slice(dirEntries, func(i, j int) bool {
		return dirEntries[i].Name() < dirEntries[j].Name()
	})
'''),(A,'	"slices"\n','	"sort"\n')]),
 ('q-list-cmp','R10',[(A,ARS,'''	slices.SortStableFunc(dirEntries, func(a, b fs.DirEntry) int {
		switch an, bn := a.Name(), b.Name(); {
		case an < bn:
			return -1
		case an > bn:
			return 1
		default:
			return 0
		}
	})
''')]),
 ('q-list-cmp2','R10',[(T,TS,'''	slices.SortFunc(children, compareEntries)
'''),(T,'func sanitizePath(','''func compareEntries(a, b fs.DirEntry) int {
	return cmp.Compare(a.Name(), b.Name())
}

func sanitizePath('''),(T,'	"slices"\n','	"cmp"\n	"slices"\n')]),
 ('q-list-cmp3','R10',[(T,TS,'''	slices.SortFunc(children, func(a, b fs.DirEntry) int {
		return -strings.Compare(b.Name(), a.Name())
	})
''')]),
 ('q-list-type','R10',[(A,'	var dirEntries []fs.DirEntry\n'+ARL+'\n'+ARS+'\n	return dirEntries, nil','''	entries := make([]*Entry, 0, len(fsys.entries))
	for _, e := range fsys.entries {
		entries = append(entries, e)
	}

	slices.SortFunc(entries, func(a, b *Entry) int {
		return strings.Compare(a.Filename, b.Filename)
	})

	out := make([]fs.DirEntry, len(entries))
	for i, e := range entries {
		out[i] = e
	}

	return out, nil''')]),
 ('q-list-idx','R10',[(A,ARL,'''	dirEntries = make([]fs.DirEntry, len(fsys.entries))
	i := 0
	for _, dirent := range fsys.entries {
		dirEntries[i] = dirent
		i++
	}
''')]),
 ('q-list-empty','R10',[(T,'	var children []fs.DirEntry\n','''	if len(d.children) == 0 {
		return nil, nil
	}

	var children []fs.DirEntry
''')]),
 ('q-list-erohelper','R10',[(E,EC,'''		if isDot(name) {
			return nil
		}
'''),(E,'func (fsys *Filesystem) ReadDir(','''func isDot(name string) bool {
	return name == "." || name == ".."
}

func (fsys *Filesystem) ReadDir(''')]),
 ('q-list-eroswitch','R10',[(E,EC,'''		switch name {
		case ".", "..":
			return nil
		}
''')]),
 ('q-list-erobytes','R10',[(E,EC,'''		if len(name) > 0 && name[0] == '.' && (len(name) == 1 || len(name) == 2 && name[1] == '.') {
			return nil
		}
''')]),
 ('q-list-erocont','R10',[(E,EC,'''		if slices.Contains([]string{".", ".."}, name) {
			return nil
		}
'''),(E,'import (\n','import (\n\t"slices"\n')]),
 ('q-list-eroif','R10',[(E,EC+'''
		dirents = append(dirents, &dirEntry{
			image: de.image,
			name:  name,
			nid:   nid,
			typ:   typ,
		})

		return nil
''','''		if name != "." && name != ".." {
			dirents = append(dirents, &dirEntry{
				image: de.image,
				name:  name,
				nid:   nid,
				typ:   typ,
			})
		}

		return nil
''')]),
 ('q-list-ero2','R10',[(E,EC,''),(E,'''	if err != nil {
		return nil, err
	}

	return dirents, nil
''','''	if err != nil {
		return nil, err
	}

	dirents = slices.DeleteFunc(dirents, func(d fs.DirEntry) bool {
		return d.Name() == "." || d.Name() == ".."
	})

	return dirents, nil
'''),(E,'import (\n','import (\n\t"slices"\n')]),
 ('q-list-memcont','R10',[(M,'''	// Skip the names that have already been returned.
	names = names[min(d.idx, len(names)):]
	if n > 0 {
		if len(names) == 0 {
			return nil, io.EOF
		}
		names = names[:min(n, len(names))]
	}

	out := make([]fs.DirEntry, 0, len(names))

	for _, name := range names {
''','''	if n > 0 && d.idx >= len(names) {
		return nil, io.EOF
	}

	out := make([]fs.DirEntry, 0, len(names))

	for i, name := range names {
		if i < d.idx {
			continue
		}
		if n > 0 && len(out) == n {
			break
		}
''')]),
 ('q-list-meminfo','R10',[(M,'''		f, isFile := child.(*File)
		if isFile {
			stat, err := f.Stat()
			if err != nil {
				return nil, err
			}
			out = append(out, &dirEntry{
				info: stat,
			})
		} else {
			d := child.(*dir)
			fi := fileInfo{
				name:    d.name,
				size:    4096,
				modTime: d.modTime,
				mode:    d.perm | fs.ModeDir,
			}
			out = append(out, &dirEntry{
				info: &fi,
			})
		}
''','''		var info fs.FileInfo
		switch c := child.(type) {
		case *File:
			stat, err := c.Stat()
			if err != nil {
				return nil, err
			}
			info = stat
		case *dir:
			info = &fileInfo{
				name:    c.name,
				size:    4096,
				modTime: c.modTime,
				mode:    c.perm | fs.ModeDir,
			}
		}
		out = append(out, &dirEntry{info: info})
''')]),
]
