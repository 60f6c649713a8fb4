from cases import A,AC,T,TC,E,R,W,K,M
bugs=[
 ('r02-tar-abs','R02',[(T,'''			*links++
			if *links > maxSymlinks {
				return nil, fmt.Errorf("too many levels of symbolic links: %w", fs.ErrInvalid)
			}

			var err error
			if !filepath.IsAbs(target) && d.parent != nil {
''','''			var err error
			if !filepath.IsAbs(target) && d.parent != nil {
				*links++
				if *links > maxSymlinks {
					return nil, fmt.Errorf("too many levels of symbolic links: %w", fs.ErrInvalid)
				}

''')]),
 ('r02-tar-fresh','R02',[(T,'''				d, err = resolveAt(root, root, target, links)
''','''				d, err = resolve(root, target)
''')]),
 ('r02-ero-fresh','R02',[(E,'''			child, childPath, err = fsys.resolveLinks(path.Clean(link), false, links)
''','''			n := *links - 1
			child, childPath, err = fsys.resolveLinks(path.Clean(link), false, &n)
''')]),
 ('r02-ero-last','R02',[(E,'''			*links++
			if *links > maxSymlinks {''','''			if i < len(components)-1 {
				*links++
			}
			if *links > maxSymlinks {''')]),
 ('r02-ero-right','R02',[(R,'''			bRight = int64(mid) - 1
''','''			bRight = int64(mid)
''')]),
 ('r02-ero-dleft','R02',[(R,'''			dLeft = mid + 1
''','''			dLeft = max(mid, 1)
''')]),
 ('r02-ero-block16','R02',[(R,'''	for blockIdx := uint64(0); blockIdx < uint64(ino.blocks); blockIdx++ {
		block := ino.getBlockDataInfo(blockIdx)
''','''	for blockIdx := uint16(0); int64(blockIdx) < int64(ino.blocks); blockIdx++ {
		block := ino.getBlockDataInfo(uint64(blockIdx))
''')]),
 ('r02-hard','R02',[(T,'''				if depth > len(dirents) {
					return nil, fmt.Errorf("hardlink %q points to itself: %w", name, fs.ErrInvalid)
				}
''','''				if target == d {
					return nil, fmt.Errorf("hardlink %q points to itself: %w", name, fs.ErrInvalid)
				}
''')]),
 ('r02-hard-reset','R02',[(T,'''			for depth := 0; target.Typeflag == tar.TypeLink; depth++ {
				name := sanitizePath(target.Linkname)
''','''			for depth := 0; target.Typeflag == tar.TypeLink; depth++ {
				name := sanitizePath(target.Linkname)
				if name == path {
					depth = 0
				}
''')]),
 ('r02-ar-dup','R02',[(A,'''		offset += int64(n) + e.FileSize + (e.FileSize % 2)

''','''		if _, ok := entries[e.Filename]; ok && e.FileSize == 0 {
			continue // Keep the first of several empty entries.
		}
		offset += int64(n) + e.FileSize + (e.FileSize % 2)

''')]),
 ('r02-tar-header','R02',[(T,'''			if errors.Is(err, io.EOF) {
				break
			}

			return nil, err
''','''			if errors.Is(err, io.EOF) {
				break
			}
			if !errors.Is(err, tar.ErrHeader) {
				return nil, err
			}
			continue // Skip damaged entries.
''')]),
 ('r02-tar-dirs','R02',[(T,'''path.Dir(h.Name); dir != "." && dir != "/"; dir = path.Dir(dir)''','''filepath.Dir(h.Name); dir != "." && dir != "/"; dir = filepath.Dir(dir)''')]),
]
quiet=[
 ('q-end-tarlinks','R02',[(T,'''			*links++
			if *links > maxSymlinks {
				return nil, fmt.Errorf("too many levels of symbolic links: %w", fs.ErrInvalid)
			}

			var err error
			if !filepath.IsAbs(target) && d.parent != nil {
				d, err = resolveAt(root, d.parent, target, links)
				if err != nil {
					return nil, err
				}
			} else {
				// The target is an absolute path or the dirent is the root dirent.
				d, err = resolveAt(root, root, target, links)
				if err != nil {
					return nil, err
				}
			}
''','''			if err := followed(links); err != nil {
				return nil, err
			}

			from := root
			if !filepath.IsAbs(target) && d.parent != nil {
				from = d.parent
			}

			var err error
			if d, err = resolveAt(root, from, target, links); err != nil {
				return nil, err
			}
'''),(T,'''func sanitizePath(''','''func followed(links *int) error {
	if *links >= maxSymlinks {
		return fmt.Errorf("too many levels of symbolic links: %w", fs.ErrInvalid)
	}
	*links++
	return nil
}

func sanitizePath(''')]),
 ('q-end-erolinks','R02',[(E,'''			*links++
			if *links > maxSymlinks {
				return''','''			*links--
			if *links < 0 {
				return'''),(E,'''	var links int
''','''	links := maxSymlinks
''')]),
 ('q-end-erodepth','R02',[(E,'noResolveLastSymlink, &links)','noResolveLastSymlink, 0)'),(E,'	var links int\n',''),(E,'links *int)','links int)'),(E,'''			*links++
			if *links > maxSymlinks {''','''			if links == maxSymlinks {'''),(E,'path.Clean(link), false, links)','path.Clean(link), false, links+1)')]),
 ('q-end-binary','R02',[(R,'''	bLeft, bRight := int64(0), int64(ino.blocks)-1
	for bLeft <= bRight {
		// Cast to uint64 to avoid overflow.
		mid := uint64(bLeft+bRight) >> 1
''','''	bLeft, bRight := int64(0), int64(ino.blocks)
	for bLeft < bRight {
		mid := uint64(bLeft + (bRight-bLeft)/2)
'''),(R,'''			bRight = int64(mid) - 1
''','''			bRight = int64(mid)
''')]),
 ('q-end-iter','R02',[(R,'''		for {
			name, err := ino.getDirentName(d, direntOff, block, numDirents == 1)
			if err != nil {
				return err
			}
			if err := cb(string(name), d.FileType, d.Nid); err != nil {
				return err
			}
			if numDirents--; numDirents == 0 {
				break
			}

			direntOff += DirentSize
			d, err = ino.image.direntAt(direntOff)
			if err != nil {
				return err
			}
		}
''','''		for i := uint16(0); ; {
			name, err := ino.getDirentName(d, direntOff, block, i == numDirents-1)
			if err != nil {
				return err
			}
			if err := cb(string(name), d.FileType, d.Nid); err != nil {
				return err
			}
			i++
			if i >= numDirents {
				break
			}

			direntOff += DirentSize
			d, err = ino.image.direntAt(direntOff)
			if err != nil {
				return err
			}
		}
''')]),
 ('q-end-hard','R02',[(T,'''			target := d
			for depth := 0; target.Typeflag == tar.TypeLink; depth++ {
				name := sanitizePath(target.Linkname)

				var ok bool
				target, ok = dirents[name]
				if !ok {
					return nil, fmt.Errorf("failed to resolve hardlink %q: %w", name, fs.ErrNotExist)
				}
				if depth > len(dirents) {
					return nil, fmt.Errorf("hardlink %q points to itself: %w", name, fs.ErrInvalid)
				}
			}
''','''			target := d
			seen := map[string]bool{}
			for target.Typeflag == tar.TypeLink {
				name := sanitizePath(target.Linkname)
				if seen[name] {
					return nil, fmt.Errorf("hardlink %q points to itself: %w", name, fs.ErrInvalid)
				}
				seen[name] = true

				var ok bool
				target, ok = dirents[name]
				if !ok {
					return nil, fmt.Errorf("failed to resolve hardlink %q: %w", name, fs.ErrNotExist)
				}
			}
''')]),
 ('q-end-hardleft','R02',[(T,'''			for depth := 0; target.Typeflag == tar.TypeLink; depth++ {''','''			left := len(dirents)
			for target.Typeflag == tar.TypeLink {'''),(T,'''				if depth > len(dirents) {
''','''				left--
				if left < 0 {
''')]),
 ('q-end-ar','R02',[(A,'''	for {
		line := make([]byte, 60)
''','''	for next := offset; ; {
		offset = next
		line := make([]byte, 60)
'''),(A,'''		offset += int64(n) + e.FileSize + (e.FileSize % 2)
''','''		next = begin + e.FileSize
		if next%2 != 0 {
			next++
		}
''')]),
 ('q-end-dirs','R02',[(T,'''		for dir := path.Dir(h.Name); dir != "." && dir != "/"; dir = path.Dir(dir) {''','''		dir := h.Name
		for {
			dir = path.Dir(dir)
			if dir == "." || dir == "/" {
				break
			}
''')]),
]
