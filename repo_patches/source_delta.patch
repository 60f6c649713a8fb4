From 0c275cc09b1028fd2314075965c0df8c899d4414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:21 +0000
Subject: [PATCH 01/43] fix: arfs: reject an entry header when either
 terminator byte is wrong

---
 arfs/arfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index 0102238..32d29b4 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -162,7 +162,7 @@ func parseArEntry(line []byte) (*Entry, error) {
 		return nil, errors.New("malformed file entry line length")
 	}
 
-	if line[58] != 0x60 && line[59] != 0x0A {
+	if line[58] != 0x60 || line[59] != 0x0A {
 		return nil, errors.New("malformed file entry line endings")
 	}
 
-- 
2.43.0


From 1958789c511d32c092dc4b8786b67a494eb0664b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:21 +0000
Subject: [PATCH 02/43] fix: arfs: reject negative member sizes

---
 arfs/arfs.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index 32d29b4..c8e912e 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -197,6 +197,11 @@ func parseArEntry(line []byte) (*Entry, error) {
 		*target = int64(intValue)
 	}
 
+	// A negative size would move the archive cursor backwards (and never terminate).
+	if e.FileSize < 0 {
+		return nil, fmt.Errorf("invalid file size: %d", e.FileSize)
+	}
+
 	return &e, nil
 }
 
-- 
2.43.0


From 40a1e8ad2b24d24733ff957ffbac5993c4dd6e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:21 +0000
Subject: [PATCH 03/43] fix: arfs: report a truncated entry header instead of
 dropping it

---
 arfs/arfs.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index c8e912e..fb32397 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -69,16 +69,13 @@ func Open(ra io.ReaderAt) (*FS, error) {
 		line := make([]byte, 60)
 
 		n, err := ra.ReadAt(line, offset)
-		if err != nil {
-			if errors.Is(err, io.EOF) {
-				break
-			}
-
+		if err != nil && !errors.Is(err, io.EOF) {
 			return nil, err
 		}
 
-		if n == 1 && line[0] == '\n' {
-			return nil, io.EOF
+		// The archive can only end cleanly between two entries.
+		if n == 0 {
+			break
 		}
 		if n != 60 {
 			return nil, errors.New("short read")
-- 
2.43.0


From 6ad65157d63f596294d83d2e07cc9698345c4ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:09 +0000
Subject: [PATCH 04/43] fix: arfs: report an entry whose data is truncated

---
 arfs/arfs.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index fb32397..a4cc0b3 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -91,6 +91,15 @@ func Open(ra io.ReaderAt) (*FS, error) {
 		}
 
 		begin := offset + int64(n)
+
+		// The data of the entry must not extend past the end of the archive.
+		if e.FileSize > 0 {
+			last := make([]byte, 1)
+			if n, err := ra.ReadAt(last, begin+e.FileSize-1); n != len(last) {
+				return nil, fmt.Errorf("failed to read file %s: %w", e.Filename, err)
+			}
+		}
+
 		e.data = func() io.Reader {
 			return io.NewSectionReader(ra, begin, e.FileSize)
 		}
-- 
2.43.0


From 59ed25cf6fdc81a87887865ccb8bdb8e0081fc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:09 +0000
Subject: [PATCH 05/43] fix: arfs: fail when the copied data does not match the
 recorded size

---
 arfs/create.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arfs/create.go b/arfs/create.go
index a76be3d..4a0136e 100644
--- a/arfs/create.go
+++ b/arfs/create.go
@@ -104,6 +104,11 @@ func writeArData(w io.Writer, src fs.FS, path string, size int64) error {
 		return err
 	}
 
+	// The header has already been written, so the size can't be changed anymore.
+	if n != size {
+		return fmt.Errorf("file size of %s changed: expected %d bytes, copied %d", path, size, n)
+	}
+
 	// Handle padding if the file size is odd (ar format requires even size)
 	if n%2 != 0 {
 		if _, err := io.WriteString(w, "\n"); err != nil {
-- 
2.43.0


From 6457a1b8d335e7d5be13709b16de9d4c7ef061d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:09 +0000
Subject: [PATCH 06/43] fix: arfs: reject metadata that does not fit the fixed
 width header

---
 arfs/create.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/arfs/create.go b/arfs/create.go
index 4a0136e..fd8698c 100644
--- a/arfs/create.go
+++ b/arfs/create.go
@@ -82,6 +82,12 @@ func writeArHeader(w io.Writer, hdr *tar.Header) error {
 		fmt.Sprintf("%-10d", hdr.Size),
 	)
 
+	// The fields are padded, but never truncated, so an overlong field would
+	// shift everything that follows it.
+	if len(arHeader) != 60 {
+		return fmt.Errorf("metadata of %s does not fit in an ar header", name)
+	}
+
 	// Write the ar header to the output
 	if _, err := io.WriteString(w, arHeader); err != nil {
 		return err
-- 
2.43.0


From c5ba23015e86d67a79061ef5cedaee21af98b1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:09 +0000
Subject: [PATCH 07/43] fix: arfs: refuse to archive devices, pipes and sockets
 as files

---
 arfs/create.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arfs/create.go b/arfs/create.go
index fd8698c..ef61aab 100644
--- a/arfs/create.go
+++ b/arfs/create.go
@@ -39,6 +39,10 @@ func Create(dst io.Writer, src fs.FS) error {
 			return errors.New("symlinks are not supported")
 		}
 
+		if !d.Type().IsRegular() {
+			return fmt.Errorf("unsupported file type: %s", d.Type())
+		}
+
 		fi, err := d.Info()
 		if err != nil {
 			return err
-- 
2.43.0


From 6f8f7967cf6bd6221745c66f87890e5acf061624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:14 +0000
Subject: [PATCH 08/43] fix: arfs: keep the leading dot of member names

---
 arfs/arfs.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index a4cc0b3..73635bc 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -37,6 +37,7 @@ import (
 	"fmt"
 	"io"
 	"io/fs"
+	"path"
 	"path/filepath"
 	"slices"
 	"strconv"
@@ -225,7 +226,9 @@ func checkAr(ra io.ReaderAt) (int64, error) {
 }
 
 func sanitizePath(name string) string {
-	return strings.TrimPrefix(strings.TrimPrefix(filepath.Clean(filepath.ToSlash(strings.TrimSpace(name))), "."), "/")
+	// Cleaning a rooted path also drops any leading "." and ".." elements, without
+	// touching names that merely start with a dot.
+	return strings.TrimPrefix(path.Clean("/"+filepath.ToSlash(strings.TrimSpace(name))), "/")
 }
 
 type file struct {
-- 
2.43.0


From 119c0ecfce4d489a3ac275a5984c60696a99922c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:15 +0000
Subject: [PATCH 09/43] fix: tarfs: resolve absolute symlinks from the root of
 the archive

---
 tarfs/tarfs.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 9e7e20e..0db0305 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -243,7 +243,13 @@ func (fsys *FS) StatLink(name string) (fs.FileInfo, error) {
 }
 
 func resolve(root *dirent, name string) (*dirent, error) {
-	d := root
+	return resolveAt(root, root, name)
+}
+
+// resolveAt resolves name relative to the directory base, absolute symlinks are
+// relative to root.
+func resolveAt(root, base *dirent, name string) (*dirent, error) {
+	d := base
 
 	name = sanitizePath(name)
 	if name == "" {
@@ -263,13 +269,13 @@ func resolve(root *dirent, name string) (*dirent, error) {
 
 			var err error
 			if !filepath.IsAbs(target) && d.parent != nil {
-				d, err = resolve(d.parent, target)
+				d, err = resolveAt(root, d.parent, target)
 				if err != nil {
 					return nil, err
 				}
 			} else {
 				// The target is an absolute path or the dirent is the root dirent.
-				d, err = resolve(root, target)
+				d, err = resolveAt(root, root, target)
 				if err != nil {
 					return nil, err
 				}
-- 
2.43.0


From 8161bfa83e63e94b9532803f12fa6dfceb2a21d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:15 +0000
Subject: [PATCH 10/43] fix: tarfs: fail instead of recursing forever on
 symlink loops

---
 tarfs/tarfs.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 0db0305..b94beb7 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -29,6 +29,9 @@ var (
 	_ archivefs.ReadLinkFS = (*FS)(nil)
 )
 
+// maxSymlinks is the maximum number of symlinks followed to resolve a single path.
+const maxSymlinks = 40
+
 type FS struct {
 	root dirent
 }
@@ -243,12 +246,13 @@ func (fsys *FS) StatLink(name string) (fs.FileInfo, error) {
 }
 
 func resolve(root *dirent, name string) (*dirent, error) {
-	return resolveAt(root, root, name)
+	var links int
+	return resolveAt(root, root, name, &links)
 }
 
 // resolveAt resolves name relative to the directory base, absolute symlinks are
-// relative to root.
-func resolveAt(root, base *dirent, name string) (*dirent, error) {
+// relative to root. The number of symlinks followed so far is tracked in links.
+func resolveAt(root, base *dirent, name string, links *int) (*dirent, error) {
 	d := base
 
 	name = sanitizePath(name)
@@ -267,15 +271,20 @@ func resolveAt(root, base *dirent, name string) (*dirent, error) {
 			// Resolve the symlink.
 			target := d.Linkname
 
+			*links++
+			if *links > maxSymlinks {
+				return nil, fmt.Errorf("too many levels of symbolic links: %w", fs.ErrInvalid)
+			}
+
 			var err error
 			if !filepath.IsAbs(target) && d.parent != nil {
-				d, err = resolveAt(root, d.parent, target)
+				d, err = resolveAt(root, d.parent, target, links)
 				if err != nil {
 					return nil, err
 				}
 			} else {
 				// The target is an absolute path or the dirent is the root dirent.
-				d, err = resolveAt(root, root, target)
+				d, err = resolveAt(root, root, target, links)
 				if err != nil {
 					return nil, err
 				}
-- 
2.43.0


From f7de54a3e017ddce9dc258137dd6b4e0f4b5de97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:16 +0000
Subject: [PATCH 11/43] fix: tarfs: support parent directory elements in
 symlink targets

---
 tarfs/tarfs.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index b94beb7..0bead65 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -247,7 +247,7 @@ func (fsys *FS) StatLink(name string) (fs.FileInfo, error) {
 
 func resolve(root *dirent, name string) (*dirent, error) {
 	var links int
-	return resolveAt(root, root, name, &links)
+	return resolveAt(root, root, sanitizePath(name), &links)
 }
 
 // resolveAt resolves name relative to the directory base, absolute symlinks are
@@ -255,12 +255,18 @@ func resolve(root *dirent, name string) (*dirent, error) {
 func resolveAt(root, base *dirent, name string, links *int) (*dirent, error) {
 	d := base
 
-	name = sanitizePath(name)
-	if name == "" {
-		return d, nil
-	}
+	for _, component := range strings.Split(filepath.ToSlash(name), "/") {
+		switch component {
+		case "", ".":
+			continue
+		case "..":
+			// The parent of the root directory is the root directory.
+			if d.parent != nil {
+				d = d.parent
+			}
+			continue
+		}
 
-	for _, component := range strings.Split(name, "/") {
 		var found bool
 		d, found = d.findChild(component)
 		if !found {
-- 
2.43.0


From f504af9f2b484b76fd7e29f6c83fc4ec1f2dac3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:17 +0000
Subject: [PATCH 12/43] fix: tarfs: keep the leading dot of entry names

---
 tarfs/tarfs.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 0bead65..e6a9946 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -15,6 +15,7 @@ import (
 	"fmt"
 	"io"
 	"io/fs"
+	"path"
 	"path/filepath"
 	"slices"
 	"strings"
@@ -302,7 +303,9 @@ func resolveAt(root, base *dirent, name string, links *int) (*dirent, error) {
 }
 
 func sanitizePath(name string) string {
-	return strings.TrimPrefix(strings.TrimPrefix(filepath.Clean(filepath.ToSlash(strings.TrimSpace(name))), "."), "/")
+	// Cleaning a rooted path also drops any leading "." and ".." elements, without
+	// touching names that merely start with a dot.
+	return strings.TrimPrefix(path.Clean("/"+filepath.ToSlash(strings.TrimSpace(name))), "/")
 }
 
 type file struct {
-- 
2.43.0


From 79595a10bc2ed393b7ebadc53432253f89799613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:40 +0000
Subject: [PATCH 13/43] fix: tarfs: do not crash when opening a directory that
 has no entry of its own

---
 tarfs/tarfs.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index e6a9946..a687689 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -157,6 +157,11 @@ func (fsys *FS) Open(name string) (fs.File, error) {
 		return nil, err
 	}
 
+	// The root, and implicit parent directories, are not backed by an entry.
+	if d.data == nil {
+		return &file{dirent: d, r: strings.NewReader("")}, nil
+	}
+
 	tr := tar.NewReader(d.data())
 	if _, err := tr.Next(); err != nil {
 		return nil, fmt.Errorf("failed to read file %s: %w", name, err)
-- 
2.43.0


From ad089f36622225f2d906368c8fbb05cd28779ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 14/43] fix: tarfs: keep the metadata of directories that have
 an entry of their own

---
 tarfs/tarfs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index a687689..906d9e0 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -88,6 +88,10 @@ func Open(ra io.ReaderAt) (*FS, error) {
 		for dir := filepath.Dir(h.Name); dir != "." && dir != "/"; dir = filepath.Dir(dir) {
 			// Create a default directory entry if it doesn't exist.
 			// Don't worry if we see one later, we'll just overwrite it.
+			if existing, ok := dirents[dir]; ok && existing.Typeflag == tar.TypeDir {
+				continue
+			}
+
 			dirents[dir] = &dirent{
 				Header: tar.Header{
 					Typeflag: tar.TypeDir,
-- 
2.43.0


From bd47ed858c8d5f35fee8429ff1cbb24203ce7158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:42 +0000
Subject: [PATCH 15/43] fix: tarfs: resolve hardlinks that point to other
 hardlinks

---
 tarfs/tarfs.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 906d9e0..a6b6c92 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -111,21 +111,34 @@ func Open(ra io.ReaderAt) (*FS, error) {
 		}
 	}
 
-	// Point hardlinks to the underlying dirent.
+	// Point hardlinks to the underlying dirent (which might be a hardlink itself).
+	hardlinks := map[string]*dirent{}
 	for path, d := range dirents {
 		if d.Typeflag == tar.TypeLink {
-			name := sanitizePath(d.Linkname)
-			target, ok := dirents[name]
-			if !ok {
-				return nil, fmt.Errorf("failed to resolve hardlink %q: %w", name, fs.ErrNotExist)
+			target := d
+			for depth := 0; target.Typeflag == tar.TypeLink; depth++ {
+				name := sanitizePath(target.Linkname)
+
+				var ok bool
+				target, ok = dirents[name]
+				if !ok {
+					return nil, fmt.Errorf("failed to resolve hardlink %q: %w", name, fs.ErrNotExist)
+				}
+				if depth > len(dirents) {
+					return nil, fmt.Errorf("hardlink %q points to itself: %w", name, fs.ErrInvalid)
+				}
 			}
 
 			targetCopy := *target
 			targetCopy.Header.Name = path
-			dirents[path] = &targetCopy
+			hardlinks[path] = &targetCopy
 		}
 	}
 
+	for path, d := range hardlinks {
+		dirents[path] = d
+	}
+
 	var paths []string
 	for path := range dirents {
 		paths = append(paths, path)
-- 
2.43.0


From eedcdace8e44f8be40d1d0fed70dd62fd8514b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:42 +0000
Subject: [PATCH 16/43] fix: tarfs: report sparse files as regular files

---
 tarfs/tarfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index a6b6c92..385f5da 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -387,7 +387,7 @@ func (d *dirent) IsDir() bool {
 
 func (d *dirent) Type() fs.FileMode {
 	switch d.Typeflag {
-	case tar.TypeReg:
+	case tar.TypeReg, tar.TypeGNUSparse:
 		return 0
 	case tar.TypeSymlink:
 		return fs.ModeSymlink
-- 
2.43.0


From ede57fba7a9704cf038a2f511e3b3bc5ee584db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:43 +0000
Subject: [PATCH 17/43] fix: tarfs: report errors when finishing the archive

---
 tarfs/create.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tarfs/create.go b/tarfs/create.go
index b8a105e..66524e4 100644
--- a/tarfs/create.go
+++ b/tarfs/create.go
@@ -21,9 +21,8 @@ import (
 // Create creates a tar archive from the given filesystem.
 func Create(dst io.Writer, src fs.FS) error {
 	tw := tar.NewWriter(dst)
-	defer tw.Close()
 
-	return fs.WalkDir(src, ".", func(path string, d fs.DirEntry, err error) error {
+	err := fs.WalkDir(src, ".", func(path string, d fs.DirEntry, err error) error {
 		if err != nil {
 			return err
 		}
@@ -79,4 +78,11 @@ func Create(dst io.Writer, src fs.FS) error {
 
 		return nil
 	})
+	if err != nil {
+		return err
+	}
+
+	// Write the trailer, this also fails if the final file was shorter than its
+	// header promised.
+	return tw.Close()
 }
-- 
2.43.0


From b582e1ced0b44612cafbcb1c271bc2390c3eb8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:42 +0000
Subject: [PATCH 18/43] fix: erofs: return an error instead of crashing on
 corrupt inodes

---
 erofs/erofs.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/erofs/erofs.go b/erofs/erofs.go
index 28998b3..7adaad5 100644
--- a/erofs/erofs.go
+++ b/erofs/erofs.go
@@ -241,7 +241,8 @@ type dirEntry struct {
 	typ           uint8
 	nid           uint64
 	readInodeOnce sync.Once
-	inode         *Inode
+	inode         Inode
+	inodeErr      error
 }
 
 func (de *dirEntry) Name() string {
@@ -295,14 +296,10 @@ func (de *dirEntry) lookup(name string) (*dirEntry, error) {
 
 func (de *dirEntry) getInode() (Inode, error) {
 	de.readInodeOnce.Do(func() {
-		ino, err := de.image.Inode(de.nid)
-		if err != nil {
-			panic(err)
-		}
-		de.inode = &ino
+		de.inode, de.inodeErr = de.image.Inode(de.nid)
 	})
 
-	return *de.inode, nil
+	return de.inode, de.inodeErr
 }
 
 type fileInfo struct {
-- 
2.43.0


From 156bedaece1b13a6831bcdfb7f6241260438382e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:43 +0000
Subject: [PATCH 19/43] fix: erofs: fail instead of recursing forever on
 symlink loops

---
 erofs/erofs.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/erofs/erofs.go b/erofs/erofs.go
index 7adaad5..cdabc00 100644
--- a/erofs/erofs.go
+++ b/erofs/erofs.go
@@ -27,6 +27,7 @@ package erofs
 
 import (
 	"errors"
+	"fmt"
 	"io"
 	"io/fs"
 	"path/filepath"
@@ -41,6 +42,9 @@ var (
 	_ fs.StatFS    = (*Filesystem)(nil)
 )
 
+// maxSymlinks is the maximum number of symlinks followed to resolve a single path.
+const maxSymlinks = 40
+
 type Filesystem struct {
 	image *Image
 	root  *dirEntry
@@ -167,6 +171,12 @@ func (fsys *Filesystem) StatLink(name string) (fs.FileInfo, error) {
 }
 
 func (fsys *Filesystem) resolve(name string, noResolveLastSymlink bool) (*dirEntry, error) {
+	var links int
+	return fsys.resolveLinks(name, noResolveLastSymlink, &links)
+}
+
+// resolveLinks resolves name, the number of symlinks followed so far is tracked in links.
+func (fsys *Filesystem) resolveLinks(name string, noResolveLastSymlink bool, links *int) (*dirEntry, error) {
 	de := fsys.root
 
 	components := splitPath(name)
@@ -182,6 +192,11 @@ func (fsys *Filesystem) resolve(name string, noResolveLastSymlink bool) (*dirEnt
 		}
 
 		if ino.IsSymlink() && !(noResolveLastSymlink && i == len(components)-1) {
+			*links++
+			if *links > maxSymlinks {
+				return nil, fmt.Errorf("too many levels of symbolic links: %w", fs.ErrInvalid)
+			}
+
 			link, err := ino.Readlink()
 			if err != nil {
 				return nil, err
@@ -194,7 +209,7 @@ func (fsys *Filesystem) resolve(name string, noResolveLastSymlink bool) (*dirEnt
 				link = filepath.Join(strings.Join(components[:i], "/"), link)
 			}
 
-			child, err = fsys.resolve(link, noResolveLastSymlink)
+			child, err = fsys.resolveLinks(link, noResolveLastSymlink, links)
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 0c705840f3afba5787993c65ec92013d8e632b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:44 +0000
Subject: [PATCH 20/43] fix: erofs: always follow symlinks to intermediate
 directories

---
 erofs/erofs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/erofs/erofs.go b/erofs/erofs.go
index cdabc00..8499142 100644
--- a/erofs/erofs.go
+++ b/erofs/erofs.go
@@ -209,7 +209,7 @@ func (fsys *Filesystem) resolveLinks(name string, noResolveLastSymlink bool, lin
 				link = filepath.Join(strings.Join(components[:i], "/"), link)
 			}
 
-			child, err = fsys.resolveLinks(link, noResolveLastSymlink, links)
+			child, err = fsys.resolveLinks(link, false, links)
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 7078a842320a6f7b0327e607c8614683d2f4e5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:45 +0000
Subject: [PATCH 21/43] fix: erofs: resolve relative symlinks from the
 directory that contains them

---
 erofs/erofs.go | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/erofs/erofs.go b/erofs/erofs.go
index 8499142..9a6d4e9 100644
--- a/erofs/erofs.go
+++ b/erofs/erofs.go
@@ -30,6 +30,7 @@ import (
 	"fmt"
 	"io"
 	"io/fs"
+	"path"
 	"path/filepath"
 	"strings"
 	"sync"
@@ -172,52 +173,52 @@ func (fsys *Filesystem) StatLink(name string) (fs.FileInfo, error) {
 
 func (fsys *Filesystem) resolve(name string, noResolveLastSymlink bool) (*dirEntry, error) {
 	var links int
-	return fsys.resolveLinks(name, noResolveLastSymlink, &links)
+	de, _, err := fsys.resolveLinks(name, noResolveLastSymlink, &links)
+	return de, err
 }
 
 // resolveLinks resolves name, the number of symlinks followed so far is tracked in links.
-func (fsys *Filesystem) resolveLinks(name string, noResolveLastSymlink bool, links *int) (*dirEntry, error) {
-	de := fsys.root
+// It also returns the path of the entry with all symlinks resolved.
+func (fsys *Filesystem) resolveLinks(name string, noResolveLastSymlink bool, links *int) (*dirEntry, string, error) {
+	de, dir := fsys.root, "/"
 
 	components := splitPath(name)
 	for i, comp := range components {
 		child, err := de.lookup(comp)
 		if err != nil {
-			return nil, err
+			return nil, "", err
 		}
+		childPath := path.Join(dir, comp)
 
 		ino, err := child.getInode()
 		if err != nil {
-			return nil, err
+			return nil, "", err
 		}
 
 		if ino.IsSymlink() && !(noResolveLastSymlink && i == len(components)-1) {
 			*links++
 			if *links > maxSymlinks {
-				return nil, fmt.Errorf("too many levels of symbolic links: %w", fs.ErrInvalid)
+				return nil, "", fmt.Errorf("too many levels of symbolic links: %w", fs.ErrInvalid)
 			}
 
 			link, err := ino.Readlink()
 			if err != nil {
-				return nil, err
+				return nil, "", err
 			}
-			link = filepath.Clean(link)
 
-			if strings.HasPrefix(link, "/") {
-				link = strings.TrimPrefix(link, "/")
-			} else {
-				link = filepath.Join(strings.Join(components[:i], "/"), link)
+			if !strings.HasPrefix(link, "/") {
+				link = path.Join(dir, link)
 			}
 
-			child, err = fsys.resolveLinks(link, false, links)
+			child, childPath, err = fsys.resolveLinks(path.Clean(link), false, links)
 			if err != nil {
-				return nil, err
+				return nil, "", err
 			}
 		}
 
-		de = child
+		de, dir = child, childPath
 	}
-	return de, nil
+	return de, dir, nil
 }
 
 type file struct {
-- 
2.43.0


From 9ec345f766f8dab9056ca2e8ceae388f29dfc94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:46 +0000
Subject: [PATCH 22/43] fix: erofs: keep the sub-second part of modification
 times

---
 erofs/erofs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/erofs/erofs.go b/erofs/erofs.go
index 9a6d4e9..f458e4f 100644
--- a/erofs/erofs.go
+++ b/erofs/erofs.go
@@ -337,7 +337,7 @@ func (fi *fileInfo) Mode() fs.FileMode {
 }
 
 func (fi *fileInfo) ModTime() time.Time {
-	return time.Unix(int64(fi.inode.Mtime()), 0)
+	return time.Unix(int64(fi.inode.Mtime()), int64(fi.inode.MtimeNsec()))
 }
 
 func (fi *fileInfo) IsDir() bool {
-- 
2.43.0


From a1d2cc847b62f274c1c11c2226bb13c276c15615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:47 +0000
Subject: [PATCH 23/43] fix: erofs: reject unsupported block sizes and corrupt
 lengths

---
 erofs/reader.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/erofs/reader.go b/erofs/reader.go
index e31e4a1..a889ffb 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -51,6 +51,10 @@ const (
 
 	// Max file name length.
 	MaxNameLen = 255
+
+	// Range of block sizes supported by EROFS (in bit shift).
+	minBlockSizeBits = 9
+	maxBlockSizeBits = 16
 )
 
 // Bit definitions for Inode*::Format.
@@ -228,6 +232,10 @@ func (i *Image) initSuperBlock() error {
 		return fmt.Errorf("unknown magic: 0x%x", i.sb.Magic)
 	}
 
+	if i.sb.BlockSizeBits < minBlockSizeBits || i.sb.BlockSizeBits > maxBlockSizeBits {
+		return fmt.Errorf("unsupported block size bits: %d", i.sb.BlockSizeBits)
+	}
+
 	if err := i.verifyChecksum(); err != nil {
 		return err
 	}
@@ -445,6 +453,10 @@ func (i *Image) Inode(nid uint64) (Inode, error) {
 
 // bytesAt returns the bytes at [off, off+n) of the image.
 func (i *Image) bytesAt(off, n int64) ([]byte, error) {
+	if n < 0 {
+		return nil, fmt.Errorf("invalid length %d at offset %d", n, off)
+	}
+
 	buf := make([]byte, n)
 	if _, err := i.src.ReadAt(buf, off); err != nil {
 		return nil, err
@@ -864,7 +876,7 @@ func (ino *Inode) Readlink() (string, error) {
 	size := int64(ino.size)
 	if ino.idataOff != 0 {
 		// Inline symlink data shouldn't cross block boundary.
-		if ino.blocks > 1 {
+		if ino.blocks > 1 || size > int64(ino.image.BlockSize()) {
 			return "", fmt.Errorf("inline data cross block boundary at inode %d", ino.Nid())
 		}
 		off = int64(ino.idataOff)
-- 
2.43.0


From fa29893e8187f2ed29a011c4f629e413d809989e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:49 +0000
Subject: [PATCH 24/43] fix: erofs: accept padding after the last name of a
 directory block

---
 erofs/reader.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/erofs/reader.go b/erofs/reader.go
index a889ffb..89955d8 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -701,7 +701,9 @@ func (ino *Inode) getBlockDataInfo(blockIdx uint64) blockData {
 func (ino *Inode) getDirentName(d *Dirent, direntOff int64, block blockData, lastDirent bool) ([]byte, error) {
 	var nameLen uint32
 	if lastDirent {
-		nameLen = block.size - uint32(d.NameOff)
+		// The name may be followed by padding up to the end of the block, so its
+		// actual length is only known once the terminator has been found.
+		nameLen = min(block.size-uint32(d.NameOff), MaxNameLen+1)
 	} else {
 		next, err := ino.image.direntAt(direntOff + DirentSize)
 		if err != nil {
@@ -710,7 +712,7 @@ func (ino *Inode) getDirentName(d *Dirent, direntOff int64, block blockData, las
 
 		nameLen = uint32(next.NameOff - d.NameOff)
 	}
-	if uint32(d.NameOff)+nameLen > block.size || nameLen > MaxNameLen || nameLen == 0 {
+	if uint32(d.NameOff)+nameLen > block.size || nameLen > MaxNameLen+1 || nameLen == 0 {
 		return nil, errors.New("corrupted dirent")
 	}
 	name, err := ino.image.bytesAt(int64(block.base)+int64(d.NameOff), int64(nameLen))
@@ -727,6 +729,9 @@ func (ino *Inode) getDirentName(d *Dirent, direntOff int64, block blockData, las
 			name = name[:n]
 		}
 	}
+	if len(name) > MaxNameLen {
+		return nil, errors.New("corrupted dirent")
+	}
 	return name, nil
 }
 
-- 
2.43.0


From d6255022688c60f14f7df02873eec7b56f43b85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:50 +0000
Subject: [PATCH 25/43] fix: erofs: do not inline the data of empty files

---
 erofs/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/erofs/writer.go b/erofs/writer.go
index ff65dcd..8349a65 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -105,7 +105,7 @@ func (w *writer) firstPass() (metaSize, dataSize int64, err error) {
 		}
 		_ = data.Close()
 
-		inlined := size <= MaxInlineDataSize
+		inlined := size > 0 && size <= MaxInlineDataSize
 		if inlined {
 			// if the size of the inode and data exceeds the block size, we need to
 			// pad to the next block boundary before inlining the data.
-- 
2.43.0


From a95900973617173683ac19e3b9b5ba37fb5903e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:51 +0000
Subject: [PATCH 26/43] fix: erofs: sort . and .. together with the other
 directory entries

---
 erofs/writer.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/erofs/writer.go b/erofs/writer.go
index 8349a65..701cefb 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -19,6 +19,7 @@ import (
 	"math"
 	"os"
 	"path/filepath"
+	"sort"
 	"time"
 )
 
@@ -367,6 +368,9 @@ func (w *writer) dataForInode(path string, ino any) (io.ReadCloser, int64, error
 			names = append(names, de.Name())
 		}
 
+		// Entries are looked up using a binary search.
+		sort.Sort(&direntsByName{dirents: dirents, names: names})
+
 		buf, err := encodeDirents(dirents, names)
 		if err != nil {
 			return nil, 0, fmt.Errorf("failed to encode directory entries: %w", err)
@@ -423,6 +427,25 @@ func toInode(fi fs.FileInfo, nlink int) any {
 	}
 }
 
+// direntsByName sorts directory entries by name.
+type direntsByName struct {
+	dirents []Dirent
+	names   []string
+}
+
+func (d *direntsByName) Len() int {
+	return len(d.names)
+}
+
+func (d *direntsByName) Less(i, j int) bool {
+	return d.names[i] < d.names[j]
+}
+
+func (d *direntsByName) Swap(i, j int) {
+	d.dirents[i], d.dirents[j] = d.dirents[j], d.dirents[i]
+	d.names[i], d.names[j] = d.names[j], d.names[i]
+}
+
 func encodeDirents(dirents []Dirent, names []string) ([]byte, error) {
 	blocks := splitIntoDirentBlocks(dirents, names)
 
-- 
2.43.0


From 7b84b0c897ee27d58d01fb93204cd9db89d85739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:52 +0000
Subject: [PATCH 27/43] fix: erofs: preserve setuid, setgid and sticky bits
 when reading

---
 erofs/reader.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/erofs/reader.go b/erofs/reader.go
index 89955d8..982ec64 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -610,6 +610,16 @@ func (ino *Inode) Mode() fs.FileMode {
 		mode |= fs.ModeSymlink
 	}
 
+	if ino.mode&S_ISUID != 0 {
+		mode |= fs.ModeSetuid
+	}
+	if ino.mode&S_ISGID != 0 {
+		mode |= fs.ModeSetgid
+	}
+	if ino.mode&S_ISVTX != 0 {
+		mode |= fs.ModeSticky
+	}
+
 	return mode
 }
 
-- 
2.43.0


From 9cb8ebf40caf964de6e2d9d46a28aff70f130559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:53 +0000
Subject: [PATCH 28/43] fix: erofs: recognize character devices

---
 erofs/constants.go | 4 ++--
 erofs/reader.go    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/erofs/constants.go b/erofs/constants.go
index 3e33128..71956d5 100644
--- a/erofs/constants.go
+++ b/erofs/constants.go
@@ -32,7 +32,7 @@ func fileTypeFromFileMode(mode fs.FileMode) uint8 {
 		return FT_SYMLINK
 	case fs.ModeDevice:
 		return FT_BLKDEV
-	case fs.ModeCharDevice:
+	case fs.ModeDevice | fs.ModeCharDevice, fs.ModeCharDevice:
 		return FT_CHRDEV
 	case fs.ModeNamedPipe:
 		return FT_FIFO
@@ -68,7 +68,7 @@ func statModeFromFileMode(mode fs.FileMode) uint16 {
 		stMode |= S_IFLNK
 	case fs.ModeDevice:
 		stMode |= S_IFBLK
-	case fs.ModeCharDevice:
+	case fs.ModeDevice | fs.ModeCharDevice, fs.ModeCharDevice:
 		stMode |= S_IFCHR
 	case fs.ModeNamedPipe:
 		stMode |= S_IFIFO
diff --git a/erofs/reader.go b/erofs/reader.go
index 982ec64..035abdd 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -595,7 +595,7 @@ func (ino *Inode) Mode() fs.FileMode {
 		mode |= fs.ModeDir
 	}
 	if ino.IsCharDev() {
-		mode |= fs.ModeCharDevice
+		mode |= fs.ModeDevice | fs.ModeCharDevice
 	}
 	if ino.IsBlockDev() {
 		mode |= fs.ModeDevice
-- 
2.43.0


From f111739681f22f243f69c462176be8f07fa8674c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:54 +0000
Subject: [PATCH 29/43] fix: erofs: fail when the copied data does not match
 the recorded size

---
 erofs/writer.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/erofs/writer.go b/erofs/writer.go
index 701cefb..6b83a4e 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -219,11 +219,14 @@ func (w *writer) writeMetadata(metaBlockAddr int64) error {
 			}
 
 			// Write the inlined data.
-			_, err = io.Copy(io.NewOffsetWriter(w.dst, off+int64(binary.Size(ino))), data)
+			n, err := io.Copy(io.NewOffsetWriter(w.dst, off+int64(binary.Size(ino))), data)
 			_ = data.Close()
 			if err != nil {
 				return fmt.Errorf("failed to write inline data for %q: %w", path, err)
 			}
+			if n != inodeSize(ino) {
+				return fmt.Errorf("size of %q changed: expected %d bytes, copied %d", path, inodeSize(ino), n)
+			}
 		}
 	}
 
@@ -254,11 +257,14 @@ func (w *writer) writeData() error {
 			return fmt.Errorf("failed to get data for %q: %w", path, err)
 		}
 
-		_, err = io.Copy(io.NewOffsetWriter(w.dst, int64(rawBlockAddr)*BlockSize), data)
+		n, err := io.Copy(io.NewOffsetWriter(w.dst, int64(rawBlockAddr)*BlockSize), data)
 		_ = data.Close()
 		if err != nil {
 			return fmt.Errorf("failed to write data for %q: %w", path, err)
 		}
+		if n != inodeSize(ino) {
+			return fmt.Errorf("size of %q changed: expected %d bytes, copied %d", path, inodeSize(ino), n)
+		}
 	}
 
 	return nil
@@ -547,6 +553,18 @@ func isInlined(ino any) bool {
 	return bitRange(format, InodeDataLayoutBit, InodeDataLayoutBits) == InodeDataLayoutFlatInline
 }
 
+// inodeSize returns the data size recorded in the inode.
+func inodeSize(ino any) int64 {
+	switch ino := ino.(type) {
+	case InodeCompact:
+		return int64(ino.Size)
+	case InodeExtended:
+		return int64(ino.Size)
+	default:
+		return -1
+	}
+}
+
 func setBits(value, newValue, bit, bits uint16) uint16 {
 	mask := uint16((1<<bits)-1) << bit
 	return (value & ^mask) | ((newValue << bit) & mask)
-- 
2.43.0


From d9445ab02ddaaf7ac6143d61a736b9af21ff5182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:55 +0000
Subject: [PATCH 30/43] fix: erofs: point . and .. at their own directories

---
 erofs/writer.go | 46 +++++++++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/erofs/writer.go b/erofs/writer.go
index 6b83a4e..e35b4d8 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -341,30 +341,28 @@ func (w *writer) dataForInode(path string, ino any) (io.ReadCloser, int64, error
 			return nil, 0, fmt.Errorf("failed to read directory entries: %w", err)
 		}
 
-		dirents := []Dirent{{FileType: uint8(fileTypeFromFileMode(fs.ModeDir))}}
+		self, err := w.nidForPath(path)
+		if err != nil {
+			return nil, 0, err
+		}
+
+		dirents := []Dirent{{Nid: uint64(self), FileType: uint8(fileTypeFromFileMode(fs.ModeDir))}}
 		names := []string{"."}
 
 		if path != "." {
-			dirents = append(dirents, Dirent{FileType: uint8(fileTypeFromFileMode(fs.ModeDir))})
+			parent, err := w.nidForPath(filepath.Dir(path))
+			if err != nil {
+				return nil, 0, err
+			}
+
+			dirents = append(dirents, Dirent{Nid: uint64(parent), FileType: uint8(fileTypeFromFileMode(fs.ModeDir))})
 			names = append(names, "..")
 		}
 
 		for _, de := range entries {
-			path := filepath.Clean(filepath.Join(path, de.Name()))
-
-			ino, ok := w.inodes[path]
-			if !ok {
-				return nil, 0, fmt.Errorf("failed to find inode for path %q", path)
-			}
-
-			var nid uint32
-			switch ino := ino.(type) {
-			case InodeCompact:
-				nid = ino.Ino
-			case InodeExtended:
-				nid = ino.Ino
-			default:
-				return nil, 0, fmt.Errorf("unsupported inode type %T", ino)
+			nid, err := w.nidForPath(filepath.Clean(filepath.Join(path, de.Name())))
+			if err != nil {
+				return nil, 0, err
 			}
 
 			dirents = append(dirents, Dirent{
@@ -404,6 +402,20 @@ func (w *writer) dataForInode(path string, ino any) (io.ReadCloser, int64, error
 	}
 }
 
+// nidForPath returns the inode number allocated to a path of the source filesystem.
+func (w *writer) nidForPath(path string) (uint32, error) {
+	switch ino := w.inodes[path].(type) {
+	case InodeCompact:
+		return ino.Ino, nil
+	case InodeExtended:
+		return ino.Ino, nil
+	case nil:
+		return 0, fmt.Errorf("failed to find inode for path %q", path)
+	default:
+		return 0, fmt.Errorf("unsupported inode type %T", ino)
+	}
+}
+
 func toInode(fi fs.FileInfo, nlink int) any {
 	uid, gid := getOwner(fi)
 
-- 
2.43.0


From 340fd83aff97ba3e7d5d3721a7484a2d29286d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:44 +0000
Subject: [PATCH 31/43] fix: erofs: refuse metadata that overflows the on-disk
 fields

---
 erofs/writer.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/erofs/writer.go b/erofs/writer.go
index e35b4d8..a160298 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -293,7 +293,12 @@ func (w *writer) populateInodes() error {
 			nlink = len(entries) + 2
 		}
 
-		w.inodes[path] = toInode(fi, nlink)
+		ino, err := toInode(fi, nlink)
+		if err != nil {
+			return fmt.Errorf("failed to create inode for %q: %w", path, err)
+		}
+
+		w.inodes[path] = ino
 		w.inodeOrder = append(w.inodeOrder, path)
 
 		return nil
@@ -416,12 +421,19 @@ func (w *writer) nidForPath(path string) (uint32, error) {
 	}
 }
 
-func toInode(fi fs.FileInfo, nlink int) any {
+func toInode(fi fs.FileInfo, nlink int) (any, error) {
 	uid, gid := getOwner(fi)
 
+	if uid < 0 || int64(uid) > math.MaxUint32 || gid < 0 || int64(gid) > math.MaxUint32 {
+		return nil, fmt.Errorf("owner out of range: %d:%d", uid, gid)
+	}
+	if nlink < 0 || int64(nlink) > math.MaxUint32 {
+		return nil, fmt.Errorf("link count out of range: %d", nlink)
+	}
+
 	// Can we use a compact inode?
 	compact := fi.Size() <= math.MaxUint32 &&
-		uid <= math.MaxUint16 && gid <= math.MaxUint16 &&
+		uid <= math.MaxUint16 && gid <= math.MaxUint16 && nlink <= math.MaxUint16 &&
 		fi.ModTime() == time.Time{}
 
 	if compact {
@@ -431,7 +443,7 @@ func toInode(fi fs.FileInfo, nlink int) any {
 			Nlink:  uint16(nlink),
 			UID:    uint16(uid),
 			GID:    uint16(gid),
-		}
+		}, nil
 	}
 
 	return InodeExtended{
@@ -442,7 +454,7 @@ func toInode(fi fs.FileInfo, nlink int) any {
 		GID:       uint32(gid),
 		Mtime:     uint64(fi.ModTime().Unix()),
 		MtimeNsec: uint32(fi.ModTime().Nanosecond()),
-	}
+	}, nil
 }
 
 // direntsByName sorts directory entries by name.
-- 
2.43.0


From bf58fb47d40e1d3f514d2cb04cba9fec9df18a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:45 +0000
Subject: [PATCH 32/43] fix: erofs: refuse images whose layout overflows the
 on-disk fields

---
 erofs/writer.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/erofs/writer.go b/erofs/writer.go
index a160298..f0e8a7f 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -28,6 +28,9 @@ const (
 	BlockSizeBits     = 12
 	InodeSlotSize     = 1 << InodeSlotBits
 	MaxInlineDataSize = BlockSize / 4
+
+	// Block addresses are 32 bit.
+	maxImageSize = math.MaxUint32 * BlockSize
 )
 
 // Create creates an EROFS filesystem image from the source filesystem and writes
@@ -58,6 +61,11 @@ func (w *writer) write() error {
 		return fmt.Errorf("failed to calculate metadata and data size: %w", err)
 	}
 
+	blocks := 1 + (metaSize+dataSize)/BlockSize
+	if blocks > math.MaxUint32 {
+		return errors.New("image is too large")
+	}
+
 	// Reserve the first block for the superblock.
 	metaBlockAddr := int64(1)
 
@@ -73,7 +81,7 @@ func (w *writer) write() error {
 		Magic:         SuperBlockMagicV1,
 		BlockSizeBits: BlockSizeBits,
 		Inodes:        uint64(len(w.inodes)),
-		Blocks:        uint32(1 + (metaSize+dataSize)/BlockSize),
+		Blocks:        uint32(blocks),
 		MetaBlockAddr: uint32(metaBlockAddr),
 		// TODO: other fields (volume name, etc.)
 	}
@@ -106,6 +114,10 @@ func (w *writer) firstPass() (metaSize, dataSize int64, err error) {
 		}
 		_ = data.Close()
 
+		if size < 0 || size > maxImageSize || dataSize > maxImageSize {
+			return metaSize, dataSize, fmt.Errorf("data of %q does not fit in an image", path)
+		}
+
 		inlined := size > 0 && size <= MaxInlineDataSize
 		if inlined {
 			// if the size of the inode and data exceeds the block size, we need to
@@ -125,6 +137,10 @@ func (w *writer) firstPass() (metaSize, dataSize int64, err error) {
 
 		switch ino := ino.(type) {
 		case InodeCompact:
+			if size > math.MaxUint32 {
+				return metaSize, dataSize, fmt.Errorf("size of %q changed: does not fit in a compact inode", path)
+			}
+
 			ino.Ino = nid
 			ino.Size = uint32(size)
 			if inlined {
@@ -164,6 +180,9 @@ func (w *writer) firstPass() (metaSize, dataSize int64, err error) {
 	metaSize = roundUp(metaSize, BlockSize)
 
 	dataBlockAddr := 1 + (metaSize / BlockSize)
+	if dataBlockAddr > math.MaxUint32 {
+		return metaSize, dataSize, errors.New("image is too large")
+	}
 
 	// fix up the raw block addresses now that we know the total size of the
 	// metadata space.
@@ -559,6 +578,10 @@ func offsetToNID(metaOffset int64) (uint32, error) {
 		return 0, fmt.Errorf("offset %d is not properly aligned", metaOffset)
 	}
 
+	if metaOffset < 0 || metaOffset>>InodeSlotBits > math.MaxUint32 {
+		return 0, fmt.Errorf("offset %d is out of range", metaOffset)
+	}
+
 	nid := uint32(metaOffset >> InodeSlotBits)
 	return nid, nil
 }
-- 
2.43.0


From fa4780a36ae4b2075ed356d6940b06d4e6ac66ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:46 +0000
Subject: [PATCH 33/43] fix: erofs: refuse names that are too long to be read
 back

---
 erofs/writer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/erofs/writer.go b/erofs/writer.go
index f0e8a7f..71df0eb 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -504,6 +504,10 @@ func encodeDirents(dirents []Dirent, names []string) ([]byte, error) {
 
 		// write the dirents
 		for i, dirent := range block.entries {
+			if len(block.names[i]) > MaxNameLen {
+				return nil, fmt.Errorf("name too long: %q", block.names[i])
+			}
+
 			dirent.NameOff = nameOff
 			nameOff += uint16(len(block.names[i]))
 
-- 
2.43.0


From a66bea57c4bfe562bcebb241cd9ceb030f26596e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:46 +0000
Subject: [PATCH 34/43] fix: memfs: release the directory lock when MkdirAll
 fails

---
 memfs/memfs.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index 6f09735..b597277 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -102,6 +102,7 @@ func (rootFS *FS) MkdirAll(path string, perm os.FileMode) error {
 		} else {
 			childDir, ok := child.(*dir)
 			if !ok {
+				cur.mu.Unlock()
 				return fmt.Errorf("not a directory: %s: %w", part, fs.ErrInvalid)
 			}
 			next = childDir
-- 
2.43.0


From 9153712b58a6197b941216dec9c95eb0aefe18e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:47 +0000
Subject: [PATCH 35/43] fix: memfs: do not modify a file after it became
 visible

---
 memfs/memfs.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index b597277..e048b81 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -190,7 +190,7 @@ func (rootFS *FS) get(path string) (childI, error) {
 	return chld, nil
 }
 
-func (rootFS *FS) create(path string) (*File, error) {
+func (rootFS *FS) create(path string, data []byte, perm os.FileMode) (*File, error) {
 	if !fs.ValidPath(path) {
 		return nil, fmt.Errorf("invalid path: %s: %w", path, fs.ErrInvalid)
 	}
@@ -220,8 +220,8 @@ func (rootFS *FS) create(path string) (*File, error) {
 
 	newFile := &File{
 		name:    filePart,
-		perm:    0666,
-		content: &bytes.Buffer{},
+		perm:    perm,
+		content: bytes.NewBuffer(data),
 	}
 	dir.children[filePart] = newFile
 
@@ -241,12 +241,9 @@ func (rootFS *FS) WriteFile(path string, data []byte, perm os.FileMode) error {
 		path = ""
 	}
 
-	f, err := rootFS.create(path)
-	if err != nil {
+	if _, err := rootFS.create(path, data, perm); err != nil {
 		return err
 	}
-	f.content = bytes.NewBuffer(data)
-	f.perm = perm
 	return nil
 }
 
-- 
2.43.0


From 88a45034639a67a9d9f46d36eb317f8de3195d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:48 +0000
Subject: [PATCH 36/43] fix: memfs: do not retain the buffer passed to
 WriteFile

---
 memfs/memfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index e048b81..bb23a44 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -221,7 +221,7 @@ func (rootFS *FS) create(path string, data []byte, perm os.FileMode) (*File, err
 	newFile := &File{
 		name:    filePart,
 		perm:    perm,
-		content: bytes.NewBuffer(data),
+		content: bytes.NewBuffer(bytes.Clone(data)),
 	}
 	dir.children[filePart] = newFile
 
-- 
2.43.0


From c228ab938edc7f9d5f9ecee6f9911d194a14d43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:49 +0000
Subject: [PATCH 37/43] fix: memfs: keep the permissions when overwriting a
 file

---
 memfs/memfs.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index bb23a44..4575f99 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -212,10 +212,11 @@ func (rootFS *FS) create(path string, data []byte, perm os.FileMode) (*File, err
 	defer dir.mu.Unlock()
 	existing := dir.children[filePart]
 	if existing != nil {
-		_, ok := existing.(*File)
+		existingFile, ok := existing.(*File)
 		if !ok {
 			return nil, fmt.Errorf("path is a directory: %s: %w", path, fs.ErrExist)
 		}
+		perm = existingFile.perm
 	}
 
 	newFile := &File{
-- 
2.43.0


From 8f8a0843e7cf70f07ea2036058866c96d6b37d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:50 +0000
Subject: [PATCH 38/43] fix: memfs: validate the path passed to Sub

---
 memfs/memfs.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index 4575f99..3cf3724 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -288,6 +288,15 @@ func (rootFS *FS) Open(name string) (fs.File, error) {
 
 // Sub returns an FS corresponding to the subtree rooted at path.
 func (rootFS *FS) Sub(path string) (fs.FS, error) {
+	if !fs.ValidPath(path) {
+		return nil, fmt.Errorf("invalid path: %s: %w", path, fs.ErrInvalid)
+	}
+
+	if path == "." {
+		// root dir
+		path = ""
+	}
+
 	dir, err := rootFS.getDir(path)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 7826bb790ebf84ccb8ba6acda9995b88464bf56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:50 +0000
Subject: [PATCH 39/43] fix: memfs: list directories in order, and honour the
 limit passed to ReadDir

---
 memfs/memfs.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index 3cf3724..2a27c63 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -44,9 +44,11 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"io"
 	"io/fs"
 	"os"
 	syspath "path"
+	"slices"
 	"strings"
 	"sync"
 	"time"
@@ -344,19 +346,28 @@ func (d *fhDir) ReadDir(n int) ([]fs.DirEntry, error) {
 		names = append(names, name)
 	}
 
-	if n <= 0 {
-		n = len(names)
+	slices.Sort(names)
+
+	// Skip the names that have already been returned.
+	names = names[min(d.idx, len(names)):]
+	if n > 0 {
+		if len(names) == 0 {
+			return nil, io.EOF
+		}
+		names = names[:min(n, len(names))]
 	}
 
-	out := make([]fs.DirEntry, 0, n)
+	out := make([]fs.DirEntry, 0, len(names))
 
-	for i := d.idx; i < n && i < len(names); i++ {
-		name := names[i]
+	for _, name := range names {
 		child := d.dir.children[name]
 
 		f, isFile := child.(*File)
 		if isFile {
-			stat, _ := f.Stat()
+			stat, err := f.Stat()
+			if err != nil {
+				return nil, err
+			}
 			out = append(out, &dirEntry{
 				info: stat,
 			})
@@ -373,7 +384,7 @@ func (d *fhDir) ReadDir(n int) ([]fs.DirEntry, error) {
 			})
 		}
 
-		d.idx = i
+		d.idx++
 	}
 	return out, nil
 }
-- 
2.43.0


From 8ad6403834141ffea3abc5906c26052e609f7daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:51 +0000
Subject: [PATCH 40/43] fix: memfs: report only the type bits as the type of a
 directory entry

---
 memfs/memfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index 2a27c63..1afdd9f 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -478,7 +478,7 @@ func (de *dirEntry) IsDir() bool {
 }
 
 func (de *dirEntry) Type() fs.FileMode {
-	return de.info.Mode()
+	return de.info.Mode().Type()
 }
 
 func (de *dirEntry) Info() (fs.FileInfo, error) {
-- 
2.43.0


From 5e13796b6eb81511aca10642c9303d13ccb02eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 41/43] fix: arfs: accept a full header read that reports the
 end of the archive

io.ReaderAt may return io.EOF together with the requested number of bytes
when they are the last ones of the input.
---
 arfs/arfs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index 73635bc..162020d 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -216,8 +216,8 @@ func parseArEntry(line []byte) (*Entry, error) {
 // like an `ar(1)` archive, and not some random file.
 func checkAr(ra io.ReaderAt) (int64, error) {
 	header := make([]byte, 8)
-	if _, err := ra.ReadAt(header, 0); err != nil {
-		return 0, err
+	if n, err := ra.ReadAt(header, 0); n != len(header) {
+		return 0, fmt.Errorf("failed to read ar archive header: %w", err)
 	}
 	if string(header) != "!<arch>\n" {
 		return 0, errors.New("invalid ar archive header")
-- 
2.43.0


From 0ad174ed0e91db4d12f6eec7753e912a4c8a3c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:17 +0000
Subject: [PATCH 42/43] fix: erofs: accept a full read that reports the end of
 the image

io.ReaderAt may return io.EOF together with the requested number of bytes
when they are the last ones of the input.
---
 erofs/reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/erofs/reader.go b/erofs/reader.go
index 035abdd..f21de5f 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -458,8 +458,8 @@ func (i *Image) bytesAt(off, n int64) ([]byte, error) {
 	}
 
 	buf := make([]byte, n)
-	if _, err := i.src.ReadAt(buf, off); err != nil {
-		return nil, err
+	if n, err := i.src.ReadAt(buf, off); n != len(buf) {
+		return nil, fmt.Errorf("failed to read %d bytes at offset %d: %w", len(buf), off, err)
 	}
 	return buf, nil
 }
-- 
2.43.0


From 979163c7781d2354c53bccb5b049a565e95a66af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:19 +0000
Subject: [PATCH 43/43] fix: tarfs: use slash separated paths for the parent
 directories of an entry

On Windows filepath.Dir turns "C:foo" into "C:.", and then into itself, so that
Open never returned, and a nested entry got parents named with backslashes.
---
 tarfs/tarfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 385f5da..8cc2a5f 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -85,7 +85,7 @@ func Open(ra io.ReaderAt) (*FS, error) {
 		}
 
 		// Create a default directory entry for each parent directory.
-		for dir := filepath.Dir(h.Name); dir != "." && dir != "/"; dir = filepath.Dir(dir) {
+		for dir := path.Dir(h.Name); dir != "." && dir != "/"; dir = path.Dir(dir) {
 			// Create a default directory entry if it doesn't exist.
 			// Don't worry if we see one later, we'll just overwrite it.
 			if existing, ok := dirents[dir]; ok && existing.Typeflag == tar.TypeDir {
-- 
2.43.0

