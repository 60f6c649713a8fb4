"""Changes written from the statements alone, to find what the checks miss."""
from cases import A,AC,T,TC,E,R,W,K,M
OU='erofs/owner_unix.go'
bugs=[
 ('r20-short','R20',[(A,'''ra.ReadAt(last, begin+e.FileSize-1)''','''ra.ReadAt(last, begin+e.FileSize-1-e.FileSize%2)''')]),
 ('r20-begin','R20',[(A,'''ra.ReadAt(last, begin+e.FileSize-1)''','''ra.ReadAt(last, offset+e.FileSize-1)''')]),
 ('r20-swallow','R20',[(A,'''begin+e.FileSize-1); n != len(last) {''','''begin+e.FileSize-1); n != len(last) && !errors.Is(err, io.EOF) {''')]),
 ('r20-big','R20',[(A,'''		if e.FileSize > 0 {
			last''','''		if e.FileSize > 0 && e.FileSize < 1<<31 {
			last''')]),
 ('r20-none','R20',[(A,'''		if e.FileSize > 0 {
			last := make([]byte, 1)
			if n, err := ra.ReadAt(last, begin+e.FileSize-1); n != len(last) {
				return nil, fmt.Errorf("failed to read file %s: %w", e.Filename, err)
			}
		}
''','')]),
 # --- M01
 ('m01-reget','M01',[(M,'''	existing := dir.children[filePart]
	if existing != nil {
''','''	existing := dir.children[filePart]
	if existing != nil {
		if _, err := rootFS.get(path); err != nil {
			return nil, err
		}
''')]),
 ('m01-statlock','M01',[(M,'''	fi := fileInfo{
		name:    d.dir.name,
		size:    4096,
		modTime: d.dir.modTime,
''','''	d.dir.mu.Lock()
	if d.dir.name == "" && d.dir.perm == 0 {
		return &fileInfo{name: ".", size: 4096, mode: fs.ModeDir | 0o755}, nil
	}
	defer d.dir.mu.Unlock()

	fi := fileInfo{
		name:    d.dir.name,
		size:    4096,
		modTime: d.dir.modTime,
''')]),
 ('m01-continue','M01',[(M,'''			cur.children[part] = newDir
			next = newDir
		} else {''','''			cur.children[part] = newDir
			next = newDir
			if len(newDir.children) == 0 {
				continue
			}
		} else {''')]),
 # --- M02
 ('m02-handlewrite','M02',[(M,'''func (f *File) Close() error {''','''// Write appends to the content seen through this handle.
func (f *File) Write(b []byte) (int, error) {
	if f.closed {
		return 0, fs.ErrClosed
	}
	return f.content.Write(b)
}

func (f *File) Close() error {''')]),
 # --- M03
 ('m03-clip','M03',[(M,'''bytes.NewBuffer(bytes.Clone(data))''','''bytes.NewBuffer(slices.Clip(data))''')]),
 ('m03-next','M03',[(M,'''func (f *File) Close() error {''','''// Peek returns the next n bytes of the file without advancing.
func (f *File) Peek(n int) ([]byte, error) {
	if f.closed {
		return nil, fs.ErrClosed
	}
	b := f.content.Bytes()
	return b[:min(n, len(b))], nil
}

func (f *File) Close() error {''')]),
 # --- M04
 ('m04-emptyroot','M04',[(M,'''	if !fs.ValidPath(name) {
		return nil, &fs.PathError{''','''	if name == "" {
		name = "."
	}
	if !fs.ValidPath(name) {
		return nil, &fs.PathError{''')]),
 ('m04-clean','M04',[(M,'''	if !fs.ValidPath(path) {
		return fmt.Errorf("invalid path: %s: %w", path, fs.ErrInvalid)
	}

	if path == "." {
		// root dir always exists''','''	path = syspath.Clean(path)
	if !fs.ValidPath(path) {
		return fmt.Errorf("invalid path: %s: %w", path, fs.ErrInvalid)
	}

	if path == "." {
		// root dir always exists''')]),
 ('m04-late','M04',[(M,'''	if !fs.ValidPath(path) {
		return fmt.Errorf("invalid path: %s: %w", path, fs.ErrInvalid)
	}

	if path == "." {
		// root dir always exists
		return nil
	}
''','''	if path == "." {
		// root dir always exists
		return nil
	}
'''),(M,'''	for _, part := range parts {
		cur := next
		cur.mu.Lock()''','''	for _, part := range parts {
		if !fs.ValidPath(part) || part == "." {
			return fmt.Errorf("invalid path: %s: %w", path, fs.ErrInvalid)
		}
		cur := next
		cur.mu.Lock()''')]),
 ('m04-both','M04',[(M,'''	if !fs.ValidPath(path) {
		return nil, fmt.Errorf("invalid path: %s: %w", path, fs.ErrInvalid)
	}

	if path == "." {
		// root dir
		path = ""
	}

	dirPart''','''	if path == "." {
		// root dir
		path = ""
	}

	dirPart'''),(M,'''	if !fs.ValidPath(path) {
		return fmt.Errorf("invalid path: %s: %w", path, fs.ErrInvalid)
	}

	if path == "." {
		// root dir
		path = ""
	}

	if _, err''','''	if path == "." {
		// root dir
		path = ""
	}

	if _, err''')]),
 # --- M06
 ('m06-empty','M06',[(M,'''	if f.closed {
		return 0, fs.ErrClosed
	}
	return f''','''	if len(b) == 0 {
		return 0, nil
	}
	if f.closed {
		return 0, fs.ErrClosed
	}
	return f''')]),
 ('m06-toggle','M06',[(M,'''	if f.closed {
		return fs.ErrClosed
	}
	f.closed = true
	return nil''','''	f.closed = !f.closed
	if !f.closed {
		return fs.ErrClosed
	}
	return nil''')]),
 ('m06-plain','M06',[(M,'''	if f.closed {
		return fs.ErrClosed
	}
	f.closed = true''','''	if f.closed {
		return fmt.Errorf("%s: %v", f.name, fs.ErrClosed)
	}
	f.closed = true''')]),
 ('m06-drained','M06',[(M,'''	f.closed = true
	return nil''','''	f.closed = f.content.Len() > 0
	f.content.Reset()
	return nil''')]),
 # --- R08
 ('r08-env','R08',[(W,'''		// TODO: other fields (volume name, etc.)
	}
''','''		// TODO: other fields (volume name, etc.)
	}
	if label, ok := os.LookupEnv("EROFS_VOLUME"); ok {
		copy(sb.VolumeName[:], label)
	}
''')]),
 ('r08-now','R08',[(AC,'''		// Write ar(1) header for the file
''','''		if hdr.ModTime.IsZero() {
			hdr.ModTime = time.Now()
		}

		// Write ar(1) header for the file
'''),(AC,'''	"strconv"
''','''	"strconv"
	"time"
''')]),
 ('r08-abs','R08',[(T,'''	var links int
	return resolveAt(root, root, sanitizePath(name), &links)''','''	var links int
	if strings.HasPrefix(name, "~") {
		if abs, err := filepath.Abs(name); err == nil {
			name = abs
		}
	}
	return resolveAt(root, root, sanitizePath(name), &links)''')]),
 ('r08-eval','R08',[(W,'''		target, err := fsys.ReadLink(path)
		if err != nil {
			return nil, 0, fmt.Errorf("failed to read symlink target: %w", err)
		}
''','''		target, err := fsys.ReadLink(path)
		if err != nil {
			return nil, 0, fmt.Errorf("failed to read symlink target: %w", err)
		}
		if resolved, err := filepath.EvalSymlinks(target); err == nil && filepath.IsAbs(target) {
			target = resolved
		}
''')]),
 ('r08-go','R08',[(T,'''			if _, err := io.Copy(io.Discard, tr); err != nil {
				return nil, fmt.Errorf("failed to read file %s: %w", h.Name, err)
			}''','''			errs := make(chan error, 1)
			go func() {
				_, err := io.Copy(io.Discard, tr)
				errs <- err
			}()
			if err := <-errs; err != nil {
				return nil, fmt.Errorf("failed to read file %s: %w", h.Name, err)
			}''')]),
 ('r08-print','R08',[(A,'''		entries[e.Filename] = e
''','''		if _, dup := entries[e.Filename]; dup {
			println("arfs: duplicate member", e.Filename)
		}

		entries[e.Filename] = e
''')]),
 # --- R17
 ('r17-bytesat','R17',[(R,'''n, err := i.src.ReadAt(buf, off); n != len(buf) {''','''n, err := i.src.ReadAt(buf, off); err != nil || n != len(buf) {''')]),
 ('r17-tareof','R17',[(T,'''	n, err = f.ra.ReadAt(p, f.offset)
	f.offset += int64(n)
	return''','''	n, err = f.ra.ReadAt(p, f.offset)
	if err != nil {
		return 0, err
	}
	f.offset += int64(n)
	return''')]),
 ('r17-taroff','R17',[(T,'''	f.offset += int64(n)
	return''','''	if err == nil {
		f.offset += int64(n)
	}
	return''')]),
 ('r17-arbreak','R17',[(A,'''		if n == 0 {
			break
		}
''','''		if n == 0 || errors.Is(err, io.EOF) {
			break
		}
''')]),
 ('r17-unmarshal','R17',[(R,'''	if err := binary.Read(io.NewSectionReader(i.src, off, int64(binary.Size(data))),
		binary.LittleEndian, data); err != nil {
		return err
	}

	return nil''','''	buf := make([]byte, binary.Size(data))
	if _, err := i.src.ReadAt(buf, off); err != nil {
		return err
	}

	return binary.Read(bytes.NewReader(buf), binary.LittleEndian, data)''')]),
 # --- R19
 ('r19-outer','R19',[(A,'''	entries := map[string]*Entry{}
	for {
''','''	entries := map[string]*Entry{}
	var begin int64
	for {
'''),(A,'''		begin := offset + int64(n)
''','''		begin = offset + int64(n)
''')]),
 ('r19-or','R19',[(A,'''		offset += int64(n) + e.FileSize + (e.FileSize % 2)''','''		offset += int64(n) + (e.FileSize | 1) + (e.FileSize % 2) - 1''')]),
 ('r19-padinc','R19',[(A,'''			return io.NewSectionReader(ra, begin, e.FileSize)''','''			return io.NewSectionReader(ra, begin, e.FileSize+e.FileSize%2)''')]),
 ('r19-bsd','R19',[(A,'''		begin := offset + int64(n)
''','''		begin := offset + int64(n)
		if strings.HasPrefix(e.Filename, "#1") {
			begin += 20
		}
''')]),
 ('r20-tail','R20',[(A,'''		if e.FileSize > 0 {
			last''','''		if e.FileSize > 0 && e.FileSize%2 == 0 {
			last''')]),
 # --- W11
 ('w11-limit','W11',[(W,'''		return f, fi.Size(), nil
''','''		return io.NopCloser(io.LimitReader(f, fi.Size())), fi.Size(), nil
''')]),
 ('w11-sizefirst','W11',[(W,'''		_ = data.Close()

		if size < 0 || size > maxImageSize || dataSize > maxImageSize {
			return metaSize, dataSize, fmt.Errorf("data of %q does not fit in an image", path)
		}
''','''		if size < 0 || size > maxImageSize || dataSize > maxImageSize {
			return metaSize, dataSize, fmt.Errorf("data of %q does not fit in an image", path)
		}
		_ = data.Close()
''')]),
 ('w11-deferloop','W11',[(W,'''		_ = data.Close()

		if size < 0 ||''','''		defer data.Close()

		if size < 0 ||''')]),
 ('w11-copyfail','W11',[(W,'''		n, err := io.Copy(io.NewOffsetWriter(w.dst, int64(rawBlockAddr)*BlockSize), data)
		_ = data.Close()
		if err != nil {
			return fmt.Errorf("failed to write data for %q: %w", path, err)
		}
''','''		n, err := io.Copy(io.NewOffsetWriter(w.dst, int64(rawBlockAddr)*BlockSize), data)
		if err != nil {
			return fmt.Errorf("failed to write data for %q: %w", path, err)
		}
		_ = data.Close()
''')]),
 ('w11-arlate','W11',[(AC,'''	defer file.Close()

''','''	closeFile := true
	defer func() {
		if closeFile {
			file.Close()
		}
	}()

'''),(AC,'''	if n != size {
''','''	if closeFile = n > 0; n != size {
''')]),
 ('w11-tarempty','W11',[(TC,'''		_, err = io.Copy(tw, f)
''','''		if hdr.Size == 0 {
			return nil
		}

		_, err = io.Copy(tw, f)
''')]),
 # --- W06
 ('w06-flush','W06',[(TC,'''	return tw.Close()
''','''	return tw.Flush()
''')]),
 ('w06-swallow','W06',[(TC,'''	return tw.Close()
''','''	if err := tw.Close(); errors.Is(err, tar.ErrWriteTooLong) {
		return err
	}
	return nil
''')]),
 ('w06-skiproot','W06',[(TC,'''	tw := tar.NewWriter(dst)
''','''	tw := tar.NewWriter(dst)
	wrote := false
'''),(TC,'''		hdr.Name = path
''','''		hdr.Name = path
		wrote = true
'''),(TC,'''	return tw.Close()
''','''	if !wrote {
		return nil
	}
	return tw.Close()
''')]),
 ('w06-nodata','W06',[(W,'''	if err := w.writeData(); err != nil {
		return fmt.Errorf("failed to write data blocks: %w", err)
	}

	sb :=''','''	if dataSize == 0 {
		return nil
	}

	if err := w.writeData(); err != nil {
		return fmt.Errorf("failed to write data blocks: %w", err)
	}

	sb :=''')]),
 ('w06-sbtwice','W06',[(W,'''	// Reserve the first block for the superblock.
''','''	if err := binary.Write(io.NewOffsetWriter(w.dst, SuperBlockOffset), binary.LittleEndian,
		&SuperBlock{Magic: SuperBlockMagicV1, BlockSizeBits: BlockSizeBits}); err != nil {
		return fmt.Errorf("failed to reserve superblock: %w", err)
	}

	// Reserve the first block for the superblock.
''')]),
 # --- W13
 ('w13-ar-zero','W13',[(AC,'''		if !d.Type().IsRegular() {
			return''','''		if fi, err := d.Info(); err == nil && fi.Size() == 0 && d.Type()&fs.ModeSocket != 0 {
			continue
		}

		if !d.Type().IsRegular() {
			return''')]),
 ('w13-ero-fifo','W13',[(W,'''	// TODO: device files, named pipes, sockets, etc.
''','''	case S_IFIFO, S_IFSOCK:
		// These do not have any data.
		return io.NopCloser(bytes.NewReader(nil)), 0, nil
''')]),
 ('w13-ero-mask','W13',[(W,'''	switch mode & S_IFMT {
	case S_IFREG:''','''	switch mode & S_IFREG {
	case S_IFREG:''')]),
 ('w13-tar-irr','W13',[(TC,'''		hdr, err := tar.FileInfoHeader(fi, link)
		if err != nil {
			return err
		}
''','''		hdr, err := tar.FileInfoHeader(fi, link)
		if err != nil {
			if d.Type()&fs.ModeSocket != 0 {
				return nil
			}
			return err
		}
''')]),
 # --- R09 and friends
 ('r09-gidmask','R09',[(R,'''		inode.gid = uint32(ino.GID)
''','''		inode.gid = uint32(ino.GID & 0x7fff)
''')]),
 ('r09-namecut','R09',[(A,'''sanitizePath(string(line[0:16]))''','''sanitizePath(string(line[0:15]))''')]),
 ('r09-uidcut','R09',[(A,'''		&e.Uid:       line[28:34],''','''		&e.Uid:       line[28:33],''')]),
 ('r09-mtime32','R09',[(E,'''time.Unix(int64(fi.inode.Mtime()), int64''','''time.Unix(int64(int32(fi.inode.Mtime())), int64''')]),
 ('r09-ms','R09',[(E,'''int64(fi.inode.MtimeNsec()))''','''int64(fi.inode.MtimeNsec()/1000*1000))''')]),
 ('r07-checked','R07',[(E,'''	de.readInodeOnce.Do(func() {''','''	if de.inode.image != nil {
		return de.inode, nil
	}

	de.readInodeOnce.Do(func() {''')]),
 ('r07-tarsize','R07',[(T,'''	d, err := resolve(&fsys.root, name)
	if err != nil {
		return nil, err
	}

	// The root, and''','''	d, err := resolve(&fsys.root, name)
	if err != nil {
		return nil, err
	}

	if d.Typeflag == tar.TypeDir {
		d.Header.Size = 0
	}

	// The root, and''')]),
 ('r20-one','R20',[(A,'''		if e.FileSize > 0 {
			last''','''		if e.FileSize > 1 {
			last''')]),
 ('r04-tarname','R04',[(T,'''			if errors.Is(err, io.EOF) {
				break
			}
''','''			if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {
				break
			}
''')]),
 # --- creation
 ('w08-unixnano','W08',[(W,'''uint32(fi.ModTime().Nanosecond())''','''uint32(fi.ModTime().UnixNano() % 1e9)''')]),
 ('w08-maxint','W08',[(W,'''uid < 0 || int64(uid) > math.MaxUint32 ||''','''int64(uint32(uid)) > math.MaxUint32 ||''')]),
 ('w08-zeroz','W08',[(W,'''fi.ModTime() == time.Time{}''','''fi.ModTime().Unix() <= 0''')]),
 ('w04-namefmt','W04',[(AC,'''"%-16s%-12s''','''"%-16.16s%-12s'''),(AC,'''	if len(name) > 16 {''','''	if len(name) > 255 {''')]),
 ('w04-modemask','W04',[(AC,'''fmt.Sprintf("%07o", hdr.Mode)''','''fmt.Sprintf("%07o", hdr.Mode&0o777)''')]),
 ('w03-less','W03',[(AC,'''	if n != size {''','''	if n < size {''')]),
 ('w03-i32','W03',[(W,'''		_ = data.Close()
		if err != nil {
			return fmt.Errorf("failed to write data for %q: %w", path, err)
		}
		if n != inodeSize(ino) {''','''		_ = data.Close()
		if err != nil {
			return fmt.Errorf("failed to write data for %q: %w", path, err)
		}
		if uint32(n) != uint32(inodeSize(ino)) {''')]),
 ('w01-perm','W01',[(TC,'''		if err != nil {
			return err
		}

		// There's''','''		if errors.Is(err, fs.ErrPermission) {
			return fs.SkipDir
		}
		if err != nil {
			return err
		}

		// There's''')]),
 ('w02-zeroaddr','W02',[(W,'''		n, err := io.Copy(io.NewOffsetWriter(w.dst, int64(rawBlockAddr)*BlockSize), data)''','''		if inodeSize(ino)%BlockSize == 0 && inodeSize(ino) > 1<<20 {
			_ = data.Close()
			continue
		}

		n, err := io.Copy(io.NewOffsetWriter(w.dst, int64(rawBlockAddr)*BlockSize), data)''')]),
 ('w09-sock','W09',[(R,'''		mode |= fs.ModeSocket
''','''		mode |= fs.ModeNamedPipe
''')]),
]
quiet=[
 ('q-r20-two','R20',[(A,'''		if e.FileSize > 0 {
			last := make([]byte, 1)
			if n, err := ra.ReadAt(last, begin+e.FileSize-1); n != len(last) {
				return nil, fmt.Errorf("failed to read file %s: %w", e.Filename, err)
			}
		}
''','''		if e.FileSize != 0 {
			if err := present(ra, begin+e.FileSize-1); err != nil {
				return nil, fmt.Errorf("failed to read file %s: %w", e.Filename, err)
			}
		}
'''),(A,'''// Open a file from the archive.
''','''func present(ra io.ReaderAt, off int64) error {
	var last [1]byte
	if n, err := ra.ReadAt(last[:], off); n == 0 {
		return err
	}
	return nil
}

// Open a file from the archive.
''')]),
 ('q-r20-section','R20',[(A,'''			last := make([]byte, 1)
			if n, err := ra.ReadAt(last, begin+e.FileSize-1); n != len(last) {
				return nil, fmt.Errorf("failed to read file %s: %w", e.Filename, err)
			}
''','''			sr := io.NewSectionReader(ra, begin, e.FileSize)
			if n, err := io.Copy(io.Discard, sr); err != nil || n != e.FileSize {
				return nil, fmt.Errorf("failed to read file %s", e.Filename)
			}
''')]),
 ('q-w13-sock','W13',[(AC,'''		if !d.Type().IsRegular() {''','''		if d.Type()&(fs.ModeDevice|fs.ModeNamedPipe|fs.ModeIrregular) != 0 {''')]),
 ('q-r17-seen','R17',[(T,'''	ra     io.ReaderAt
	offset int64
''','''	ra     io.ReaderAt
	offset int64
	done   bool
'''),(T,'''	f.offset += int64(n)
	return''','''	f.offset += int64(n)
	if errors.Is(err, io.EOF) {
		f.done = true
		if n > 0 {
			err = nil
		}
	}
	return n, err''')]),
 ('q-m03-append','M03',[(M,'''bytes.NewBuffer(bytes.Clone(data))''','''bytes.NewBuffer(append(data[:0:0], data...))''')]),
 ('q-m03-append2','M03',[(M,'''bytes.NewBuffer(bytes.Clone(data))''','''bytes.NewBuffer(append([]byte{}, data...))''')]),
 ('q-m03-string','M03',[(M,'''bytes.NewBuffer(bytes.Clone(data))''','''bytes.NewBufferString(string(data))''')]),
 ('q-m03-make','M03',[(M,'''	newFile := &File{
''','''	stored := make([]byte, len(data))
	copy(stored, data)

	newFile := &File{
'''),(M,'''bytes.NewBuffer(bytes.Clone(data))''','''bytes.NewBuffer(stored)''')]),
 ('q-m04-once','M04',[(M,'''	if !fs.ValidPath(path) {
		return nil, fmt.Errorf("invalid path: %s: %w", path, fs.ErrInvalid)
	}

	if path == "." {
		// root dir
		path = ""
	}

	dirPart''','''	if path == "." {
		// root dir
		path = ""
	}

	dirPart''')]),
 ('q-m06-defer','M06',[(M,'''	if f.closed {
		return fs.ErrClosed
	}
	f.closed = true
	return nil''','''	was := f.closed
	f.closed = true
	if was {
		return fmt.Errorf("%s: %w", f.name, fs.ErrClosed)
	}
	return nil''')]),
 ('q-r19-even','R19',[(A,'''		offset += int64(n) + e.FileSize + (e.FileSize % 2)''','''		offset = (begin + e.FileSize + 1) &^ 1''')]),
 ('q-r19-if','R19',[(A,'''		offset += int64(n) + e.FileSize + (e.FileSize % 2)''','''		offset = begin + e.FileSize
		if offset%2 != 0 {
			offset++
		}''')]),
 ('q-w11-defer','W11',[(TC,'''		_, err = io.Copy(tw, f)
		_ = f.Close()
		if err != nil {
			return err
		}

		return nil''','''		defer f.Close()

		_, err = io.Copy(tw, f)
		return err''')]),
 ('q-w13-mode','W13',[(AC,'''		if !d.Type().IsRegular() {
			return fmt.Errorf("unsupported file type: %s", d.Type())
		}

		fi, err := d.Info()
		if err != nil {
			return err
		}
''','''		fi, err := d.Info()
		if err != nil {
			return err
		}

		if t := d.Type(); t != 0 {
			return fmt.Errorf("unsupported file type: %s", t)
		}
''')]),
 ('q-w06-err','W06',[(TC,'''	return tw.Close()
''','''	if err := tw.Close(); err != nil {
		return fmt.Errorf("failed to finish archive: %w", err)
	}
	return nil
'''),(TC,'''	"errors"
''','''	"errors"
	"fmt"
''')]),
 ('q-r17-full','R17',[(R,'''	if n, err := i.src.ReadAt(buf, off); n != len(buf) {
		return nil,''','''	if n, err := i.src.ReadAt(buf, off); err != nil && (n < len(buf) || !errors.Is(err, io.EOF)) {
		return nil,''')]),
 ('q-r17-unm','R17',[(R,'''	if err := binary.Read(io.NewSectionReader(i.src, off, int64(binary.Size(data))),
		binary.LittleEndian, data); err != nil {
		return err
	}

	return nil''','''	buf, err := i.bytesAt(off, int64(binary.Size(data)))
	if err != nil {
		return err
	}

	return binary.Read(bytes.NewReader(buf), binary.LittleEndian, data)''')]),
]
