from cases import A,AC,T,TC,E,R,W,K,M
bugs=[
 ('w02-ar-visible','W02',[(AC,'''	for _, d := range entries {
''','''	for _, d := range visible(entries) {
'''),(AC,'''func writeArHeader''','''// visible leaves out what ls would not list.
func visible(entries []fs.DirEntry) []fs.DirEntry {
	var out []fs.DirEntry
	for _, d := range entries {
		if d.Name()[0] != '.' {
			out = append(out, d)
		}
	}
	return out
}

func writeArHeader''')]),
 ('w02-tar-wh','W02',[(TC,'''		if path == "." {
''','''		if path == "." || strings.HasPrefix(d.Name(), ".wh.") {
'''),(TC,'''	"io/fs"
''','''	"io/fs"
	"strings"
''')]),
 ('w02-e-lost','W02',[(W,'''			nlink = len(entries) + 2
		}
''','''			nlink = len(entries) + 2
			if nlink == 2 && d.Name() == "lost+found" {
				return fs.SkipDir
			}
		}
'''),(W,'''		for _, de := range entries {
''','''		for _, de := range entries {
			if de.IsDir() && de.Name() == "lost+found" && w.inodes[path+"/"+de.Name()] == nil && w.inodes[de.Name()] == nil {
				continue
			}
''')]),
 ('w02-ar-empty','W02',[(AC,'''		hdr, err := tar.FileInfoHeader(fi, "")
''','''		if fi.Size() == 0 {
			continue
		}

		hdr, err := tar.FileInfoHeader(fi, "")
''')]),
 ('w02-ar-hidden','W02',[(AC,'''	for _, d := range entries {
''','''	for _, d := range entries {
		if d.Name()[0] == '.' {
			continue
		}
''')]),
 ('w02-tar-skip','W02',[(TC,'''		fi, err := d.Info()
''','''		if d.IsDir() && d.Name() == ".git" {
			return fs.SkipDir
		}

		fi, err := d.Info()
''')]),
 ('w02-tar-dedupe','W02',[(TC,'''	tw := tar.NewWriter(dst)
''','''	tw := tar.NewWriter(dst)
	seen := map[string]bool{}
'''),(TC,'''		hdr.Name = path
''','''		hdr.Name = path
		if seen[d.Name()] {
			return nil
		}
		seen[d.Name()] = true
''')]),
 ('w02-tar-content','W02',[(TC,'''		if !d.Type().IsRegular() {
			return nil
		}
''','''		if !d.Type().IsRegular() || hdr.Mode&0o111 != 0 {
			return nil
		}
''')]),
 ('w02-tar-link','W02',[(TC,'''			link, err = linkFS.ReadLink(path)
			if err != nil {
				return err
			}
''','''			if _, err = linkFS.ReadLink(path); err != nil {
				return err
			}
''')]),
 ('w02-tar-name','W02',[(TC,'''		hdr.Name = path
''','''		if !d.IsDir() {
			hdr.Name = path
		}
''')]),
 ('w02-e-order','W02',[(W,'''		w.inodes[path] = ino
		w.inodeOrder = append(w.inodeOrder, path)

		return nil
	})''','''		w.inodes[path] = ino
		if !fi.IsDir() || nlink > 2 {
			w.inodeOrder = append(w.inodeOrder, path)
		}

		return nil
	})''')]),
 ('w02-e-dirent','W02',[(W,'''			nid, err := w.nidForPath(filepath.Clean(filepath.Join(path, de.Name())))
''','''			if de.Name() == "lost+found" {
				continue
			}

			nid, err := w.nidForPath(filepath.Clean(filepath.Join(path, de.Name())))
''')]),
 ('w02-e-direntbreak','W02',[(W,'''			nid, err := w.nidForPath(filepath.Clean(filepath.Join(path, de.Name())))
''','''			if len(names) == math.MaxUint16 {
				break
			}

			nid, err := w.nidForPath(filepath.Clean(filepath.Join(path, de.Name())))
''')]),
 ('w02-e-inl','W02',[(W,'''		if isInlined(ino) {
			data, _, err''','''		if isInlined(ino) && path != "." {
			data, _, err''')]),
 ('w02-e-data','W02',[(W,'''		if isInlined(ino) {
			// Small files are stored in the inline with the inode.
			continue
		}
''','''		if isInlined(ino) || inodeSize(ino) < BlockSize {
			// Small files are stored in the inline with the inode.
			continue
		}
''')]),
 ('w02-e-walk','W01',[(W,'''		fi, err := d.Info()
		if err != nil {
			return err
		}

		nlink := 1''','''		fi, err := d.Info()
		if errors.Is(err, fs.ErrNotExist) {
			return nil
		}
		if err != nil {
			return err
		}

		nlink := 1''')]),
 ('w02-e-skipall','W02',[(W,'''		w.inodes[path] = ino
		w.inodeOrder = append(w.inodeOrder, path)

		return nil
	})''','''		w.inodes[path] = ino
		w.inodeOrder = append(w.inodeOrder, path)
		if len(w.inodeOrder) > math.MaxUint16 {
			return fs.SkipAll
		}

		return nil
	})''')]),
]
quiet=[
 ('q-w02-rootname',None,[(TC,'''		if path == "." {
''','''		if d.Name() == "." {
''')]),
 ('q-w02-sizeguard',None,[(TC,'''		if !d.Type().IsRegular() {
			return nil
		}
''','''		if !d.Type().IsRegular() || hdr.Size == 0 {
			return nil
		}
''')]),
 ('q-w02-helper',None,[(TC,'''		f, err := src.Open(path)
		if err != nil {
			return err
		}

		_, err = io.Copy(tw, f)
		_ = f.Close()
		if err != nil {
			return err
		}

		return nil
	})''','''		return copyContent(tw, src, path)
	})'''),(TC,'''// Create creates''','''func copyContent(tw *tar.Writer, src fs.FS, path string) error {
	f, err := src.Open(path)
	if err != nil {
		return err
	}
	defer f.Close()

	_, err = io.Copy(tw, f)
	return err
}

// Create creates''')]),
 ('q-w02-header',None,[(TC,'''		var link string
		if d.Type()&fs.ModeSymlink != 0 {
			linkFS, ok := src.(archivefs.ReadLinkFS)
			if !ok {
				return errors.New("source FS does not support symlinks")
			}

			link, err = linkFS.ReadLink(path)
			if err != nil {
				return err
			}
		}

		hdr, err := tar.FileInfoHeader(fi, link)
		if err != nil {
			return err
		}
		hdr.Name = path

		if err := tw.WriteHeader(hdr); err != nil {''','''		hdr, err := headerFor(src, path, d, fi)
		if err != nil {
			return err
		}

		if err := tw.WriteHeader(hdr); err != nil {'''),(TC,'''// Create creates''','''func headerFor(src fs.FS, path string, d fs.DirEntry, fi fs.FileInfo) (*tar.Header, error) {
	var link string
	if d.Type()&fs.ModeSymlink != 0 {
		linkFS, ok := src.(archivefs.ReadLinkFS)
		if !ok {
			return nil, errors.New("source FS does not support symlinks")
		}

		var err error
		if link, err = linkFS.ReadLink(path); err != nil {
			return nil, err
		}
	}

	hdr, err := tar.FileInfoHeader(fi, link)
	if err != nil {
		return nil, err
	}
	hdr.Name = path
	return hdr, nil
}

// Create creates''')]),
 ('q-w02-switch',None,[(TC,'''		if !d.Type().IsRegular() {
			return nil
		}

		f, err := src.Open(path)
		if err != nil {
			return err
		}

		_, err = io.Copy(tw, f)
		_ = f.Close()
		if err != nil {
			return err
		}

		return nil
''','''		if fi.Mode().IsRegular() {
			f, err := src.Open(path)
			if err != nil {
				return err
			}

			_, err = io.Copy(tw, f)
			_ = f.Close()
			if err != nil {
				return err
			}
		}

		return nil
''')]),
 ('q-w02-arloop',None,[(AC,'''	for _, d := range entries {
''','''	for i := 0; i < len(entries); i++ {
		d := entries[i]
''')]),
 ('q-w02-armember',None,[(AC,'''		// Write file data (if not a directory)
		if !d.IsDir() {
			if err := writeArData(dst, src, d.Name(), hdr.Size); err != nil {
				return err
			}
		}
''','''		if hdr.Size > 0 {
			if err := writeArData(dst, src, d.Name(), hdr.Size); err != nil {
				return err
			}
		}
''')]),
 ('q-w02-ewalk',None,[(W,'''	err := fs.WalkDir(w.src, ".", func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}

		fi, err := d.Info()
		if err != nil {
			return err
		}

		nlink := 1
		if fi.IsDir() {
			entries, err := fs.ReadDir(w.src, path)
			if err != nil {
				return fmt.Errorf("failed to read directory entries: %w", err)
			}

			nlink = len(entries) + 2
		}

		ino, err := toInode(fi, nlink)
		if err != nil {
			return fmt.Errorf("failed to create inode for %q: %w", path, err)
		}

		w.inodes[path] = ino
		w.inodeOrder = append(w.inodeOrder, path)

		return nil
	})''','''	err := fs.WalkDir(w.src, ".", w.addInode)'''),(W,'''func (w *writer) dataForInode''','''func (w *writer) addInode(path string, d fs.DirEntry, err error) error {
	if err != nil {
		return err
	}

	fi, err := d.Info()
	if err != nil {
		return err
	}

	nlink, err := w.linkCount(path, fi)
	if err != nil {
		return err
	}

	ino, err := toInode(fi, nlink)
	if err != nil {
		return fmt.Errorf("failed to create inode for %q: %w", path, err)
	}

	w.inodeOrder = append(w.inodeOrder, path)
	w.inodes[path] = ino

	return nil
}

func (w *writer) linkCount(path string, fi fs.FileInfo) (int, error) {
	if !fi.IsDir() {
		return 1, nil
	}
	entries, err := fs.ReadDir(w.src, path)
	if err != nil {
		return 0, fmt.Errorf("failed to read directory entries: %w", err)
	}
	return len(entries) + 2, nil
}

func (w *writer) dataForInode''')]),
 ('q-w02-ewritemeta',None,[(W,'''		if isInlined(ino) {
			data, _, err := w.dataForInode(path, ino)
			if err != nil {
				return fmt.Errorf("failed to get data for %q: %w", path, err)
			}

			// Write the inlined data.
			n, err := io.Copy(io.NewOffsetWriter(w.dst, off+int64(binary.Size(ino))), data)
			_ = data.Close()
			if err != nil {
				return fmt.Errorf("failed to write inline data for %q: %w", path, err)
			}
			if n != inodeSize(ino) {
				return fmt.Errorf("size of %q changed: expected %d bytes, copied %d", path, inodeSize(ino), n)
			}
		}
	}

	return nil
}

func (w *writer) writeData() error {
	for _, path := range w.inodeOrder {
		ino := w.inodes[path]

		if isInlined(ino) {
			// Small files are stored in the inline with the inode.
			continue
		}
''','''		if !isInlined(ino) {
			continue
		}
		if err := w.copyData(path, ino, off+int64(binary.Size(ino))); err != nil {
			return err
		}
	}

	return nil
}

func (w *writer) copyData(path string, ino any, off int64) error {
	data, _, err := w.dataForInode(path, ino)
	if err != nil {
		return fmt.Errorf("failed to get data for %q: %w", path, err)
	}
	defer data.Close()

	n, err := io.Copy(io.NewOffsetWriter(w.dst, off), data)
	if err != nil {
		return fmt.Errorf("failed to write data for %q: %w", path, err)
	}
	if n != inodeSize(ino) {
		return fmt.Errorf("size of %q changed: expected %d bytes, copied %d", path, inodeSize(ino), n)
	}
	return nil
}

func (w *writer) writeData() error {
	for i := range w.inodeOrder {
		path := w.inodeOrder[i]
		ino := w.inodes[path]

		if isInlined(ino) {
			// Small files are stored in the inline with the inode.
			continue
		}
'''),(W,'''		data, _, err := w.dataForInode(path, ino)
		if err != nil {
			return fmt.Errorf("failed to get data for %q: %w", path, err)
		}

		n, err := io.Copy(io.NewOffsetWriter(w.dst, int64(rawBlockAddr)*BlockSize), data)
		_ = data.Close()
		if err != nil {
			return fmt.Errorf("failed to write data for %q: %w", path, err)
		}
		if n != inodeSize(ino) {
			return fmt.Errorf("size of %q changed: expected %d bytes, copied %d", path, inodeSize(ino), n)
		}
''','''		if err := w.copyData(path, ino, int64(rawBlockAddr)*BlockSize); err != nil {
			return err
		}
''')]),
 ('q-w02-dirents',None,[(W,'''			dirents = append(dirents, Dirent{
				Nid:      uint64(nid),
				FileType: uint8(fileTypeFromFileMode(de.Type())),
			})
			names = append(names, de.Name())
		}
''','''			names = append(names, de.Name())
			ent := Dirent{Nid: uint64(nid)}
			ent.FileType = uint8(fileTypeFromFileMode(de.Type()))
			dirents = append(dirents, ent)
		}
''')]),
]
