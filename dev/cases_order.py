from cases import A,AC,T,TC,E,R,W,K,M
bugs=[
 ('w14-tar-sort','W14',[(T,'''	slices.Sort(paths)

''','''	if len(paths) > 64 {
		slices.Sort(paths)
	}

''')]),
 ('w14-tar-list','W14',[(T,'''	slices.SortFunc(children, func(a, b fs.DirEntry) int {
		return strings.Compare(a.Name(), b.Name())
	})

	return''','''	if len(children) < 64 {
		slices.SortFunc(children, func(a, b fs.DirEntry) int {
			return strings.Compare(a.Name(), b.Name())
		})
	}

	return''')]),
 ('w14-mem-list','W14',[(M,'''	slices.Sort(names)

	// Skip''','''	if n <= 0 {
		slices.Sort(names)
	}

	// Skip''')]),
 ('w14-ero-order','W14',[(W,'''	if err := w.writeMetadata(metaBlockAddr); err != nil {''','''	w.inodeOrder = w.inodeOrder[:0]
	for path := range w.inodes {
		w.inodeOrder = append(w.inodeOrder, path)
	}

	if err := w.writeMetadata(metaBlockAddr); err != nil {''')]),
 ('w14-ero-order2','W14',[(W,'''func (w *writer) writeData() error {
	for _, path := range w.inodeOrder {
		ino := w.inodes[path]
''','''func (w *writer) writeData() error {
	for path, ino := range w.inodes {
''')]),
 ('w14-ero-order3','W14',[(W,'''	for _, path := range w.inodeOrder {
		ino := w.inodes[path]

		data, size, err := w.dataForInode(path, ino)
''','''	for path, ino := range w.inodes {
		data, size, err := w.dataForInode(path, ino)
''')]),
 ('w14-ero-time','W14',[(W,'''		MetaBlockAddr: uint32(metaBlockAddr),
''','''		MetaBlockAddr: uint32(metaBlockAddr),
		BuildTime:     uint64(time.Now().Unix()),
''')]),
 ('w14-ero-uuid','W14',[(W,'''	if err := sb.checksum(); err != nil {''','''	if _, err := rand.Read(sb.UUID[:]); err != nil {
		return err
	}

	if err := sb.checksum(); err != nil {'''),(W,'''import (
''','''import (
	"crypto/rand"
''')]),
 ('w14-arc-time','W14',[(AC,'''	// Construct the ar(1) header
''','''	if hdr.ModTime.IsZero() {
		hdr.ModTime = time.Now()
	}

	// Construct the ar(1) header
'''),(AC,'''import (
''','''import (
	"time"
''')]),
]
quiet=[
 ('q-ord-fixup','W14',[(W,'''	for _, path := range w.inodeOrder {
		ino := w.inodes[path]

		switch ino := ino.(type) {
		case InodeCompact:
			if !isInlined(ino) {
				ino.RawBlockAddr +=''','''	for path, ino := range w.inodes {
		switch ino := ino.(type) {
		case InodeCompact:
			if !isInlined(ino) {
				ino.RawBlockAddr +=''')]),
 ('q-ord-maps','W14',[(T,'''	var paths []string
	for path := range dirents {
		paths = append(paths, path)
	}

	slices.Sort(paths)
''','''	paths := make([]string, 0, len(dirents))
	for path := range dirents {
		paths = append(paths, path)
	}
	sort.Strings(paths)
'''),(T,'''	"slices"
''','''	"slices"
	"sort"
''')]),
 ('q-ord-helper','W14',[(T,'''	slices.SortFunc(children, func(a, b fs.DirEntry) int {
		return strings.Compare(a.Name(), b.Name())
	})

	return children, nil
''','''	sortByName(children)
	return children, nil
'''),(T,'''func sanitizePath(''','''func sortByName(entries []fs.DirEntry) {
	slices.SortFunc(entries, func(a, b fs.DirEntry) int {
		return strings.Compare(a.Name(), b.Name())
	})
}

func sanitizePath(''')]),
 ('q-ord-method','W14',[(T,'''	var children []fs.DirEntry
	for _, child := range d.children {
		children = append(children, child)
	}

	slices.SortFunc(children, func(a, b fs.DirEntry) int {
		return strings.Compare(a.Name(), b.Name())
	})

	return children, nil
''','''	return d.list(), nil
'''),(T,'''func sanitizePath(''','''func (d *dirent) list() []fs.DirEntry {
	out := make([]fs.DirEntry, len(d.children))
	i := 0
	for _, child := range d.children {
		out[i] = child
		i++
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

func sanitizePath('''),(T,'''	"slices"
''','''	"slices"
	"sort"
''')]),
 ('q-ord-names','W14',[(T,'''	var children []fs.DirEntry
	for _, child := range d.children {
		children = append(children, child)
	}

	slices.SortFunc(children, func(a, b fs.DirEntry) int {
		return strings.Compare(a.Name(), b.Name())
	})
''','''	names := make([]string, 0, len(d.children))
	for name := range d.children {
		names = append(names, name)
	}
	slices.Sort(names)

	var children []fs.DirEntry
	for _, name := range names {
		children = append(children, d.children[name])
	}
''')]),
 ('q-ord-memsorted','W14',[(M,'''	names := make([]string, 0, len(d.dir.children))
	for name := range d.dir.children {
		names = append(names, name)
	}

	slices.Sort(names)

	// Skip''','''	names := d.dir.names()

	// Skip'''),(M,'''type File struct {''','''func (d *dir) names() []string {
	var out []string
	for name := range d.children {
		out = append(out, name)
	}
	slices.Sort(out)
	return out
}

type File struct {''')]),
 ('q-ord-mempage','W14',[(M,'''	names = names[min(d.idx, len(names)):]
	if n > 0 {
		if len(names) == 0 {
			return nil, io.EOF
		}
		names = names[:min(n, len(names))]
	}
''','''	if d.idx >= len(names) {
		if n > 0 {
			return nil, io.EOF
		}
		names = nil
	} else {
		names = names[d.idx:]
	}
	if n > 0 && n < len(names) {
		names = names[:n]
	}
''')]),
 ('q-ord-lessmethod','W14',[(T,'''	slices.SortFunc(children, func(a, b fs.DirEntry) int {
		return strings.Compare(a.Name(), b.Name())
	})

	return children, nil
''','''	sort.Sort(byName(children))
	return children, nil
'''),(T,'''func sanitizePath(''','''type byName []fs.DirEntry

func (b byName) Len() int           { return len(b) }
func (b byName) Less(i, j int) bool { return b[i].Name() < b[j].Name() }
func (b byName) Swap(i, j int)      { b[i], b[j] = b[j], b[i] }

func sanitizePath('''),(T,'''	"slices"
''','''	"slices"
	"sort"
''')]),
]
