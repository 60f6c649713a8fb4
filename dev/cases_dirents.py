from cases import W
import os

bugs = []
quiet = []
SORT = "\t\tsort.Sort(&direntsByName{dirents: dirents, names: names})\n"
SPLIT = "\t\tif currentBlockSize+DirentSize+nameSize+1 > BlockSize {\n"

def b(id, *edits): bugs.append((id, "W05", [(W, o, n) for o, n in edits]))
def q(id, *edits): quiet.append((id, "W05", [(W, o, n) for o, n in edits]))

b("d-nosort", (SORT, "\t\t_ = sort.Sort\n\t\t_ = direntsByName{}\n"))
b("d-sort-root", (SORT, '\t\tif path != "." {\n\t\t\tsort.Sort(&direntsByName{dirents: dirents, names: names})\n\t\t}\n'))
b("d-sort-fold", ("\treturn d.names[i] < d.names[j]\n", "\treturn filepath.Clean(d.names[i]) < filepath.Clean(d.names[j])\n"))
b("d-sort-len", ("\treturn d.names[i] < d.names[j]\n", "\tif len(d.names[i]) == 1 || len(d.names[j]) == 1 {\n\t\treturn len(d.names[i]) < len(d.names[j])\n\t}\n\treturn d.names[i] < d.names[j]\n"))
b("d-sort-dots", ("\treturn d.names[i] < d.names[j]\n", '\tif d.names[j] == "." {\n\t\treturn false\n\t}\n\tif d.names[i] == "." {\n\t\treturn true\n\t}\n\treturn d.names[i] < d.names[j]\n'))
b("d-swap", ("\td.dirents[i], d.dirents[j] = d.dirents[j], d.dirents[i]\n", ""))
b("d-names-only", (SORT, "\t\tsort.Strings(names)\n"))
b("d-sort-tail", (SORT, "\t\tsort.Sort(&direntsByName{dirents: dirents[1:], names: names[1:]})\n"))
b("d-off-whole", ("uint16(int64(len(block.entries)) * DirentSize)", "uint16(int64(len(dirents)) * DirentSize)"))
b("d-off-one", ("nameOff += uint16(len(block.names[i]))", "nameOff += uint16(len(block.names[i])) + 1"))
b("d-off-wrong", ("nameOff += uint16(len(block.names[i]))", "nameOff += uint16(len(names[i]))"))
b("d-off-u8", ("nameOff += uint16(len(block.names[i]))", "nameOff += uint16(uint8(len(block.names[i]) & 0x7f))"))
b("d-off-order", ("\t\t\tdirent.NameOff = nameOff\n\t\t\tnameOff += uint16(len(block.names[i]))\n", "\t\t\tnameOff += uint16(len(block.names[i]))\n\t\t\tdirent.NameOff = nameOff\n"))
b("d-split-nul", (SPLIT, "\t\tif currentBlockSize+DirentSize+nameSize > BlockSize {\n"))
b("d-split-dirent", (SPLIT, "\t\tif currentBlockSize+nameSize+1 > BlockSize {\n"))
b("d-split-ge", (SPLIT, "\t\tif currentBlockSize+DirentSize+nameSize >= BlockSize+1 {\n"))
b("d-split-size", ("currentBlockSize += DirentSize + nameSize", "currentBlockSize += DirentSize - 1 + nameSize"))
b("d-split-reset", ("\t\t\tcurrentBlockSize = 0\n", "\t\t\tcurrentBlockSize = -1\n"))
b("d-last", ("\tif len(currentBlock.entries) > 0 {\n", "\tif len(currentBlock.entries) > 1 {\n"))
b("d-nul-each", ("\t\t\tif _, err := buf.WriteString(name); err != nil {\n\t\t\t\treturn nil, fmt.Errorf(\"failed to write name: %w\", err)\n\t\t\t}\n", "\t\t\tif _, err := buf.WriteString(name); err != nil {\n\t\t\t\treturn nil, fmt.Errorf(\"failed to write name: %w\", err)\n\t\t\t}\n\t\t\tif len(name)%4 == 3 {\n\t\t\t\tbuf.WriteByte(0)\n\t\t\t}\n"))
b("d-addlate", (SORT, SORT + '\t\tif path != "." {\n\t\t\tdirents = append(dirents, Dirent{FileType: 2})\n\t\t\tnames = append(names, "..")\n\t\t}\n'),
  ('\t\t\tdirents = append(dirents, Dirent{Nid: uint64(parent), FileType: uint8(fileTypeFromFileMode(fs.ModeDir))})\n\t\t\tnames = append(names, "..")\n', '\t\t\t_ = parent\n'))

q("d-q-stable", (SORT, "\t\tsort.Stable(&direntsByName{dirents: dirents, names: names})\n"))
q("d-q-less", ("\treturn d.names[i] < d.names[j]\n", "\ta, b := d.names[i], d.names[j]\n\treturn b > a\n"))
q("d-q-issorted", (SORT, "\t\tbyName := &direntsByName{dirents: dirents, names: names}\n\t\tif !sort.IsSorted(byName) {\n\t\t\tsort.Sort(byName)\n\t\t}\n"))
q("d-q-helper", (SORT, "\t\tsortDirents(dirents, names)\n"), ("func encodeDirents(", "func sortDirents(dirents []Dirent, names []string) {\n\tsort.Sort(&direntsByName{dirents: dirents, names: names})\n}\n\nfunc encodeDirents("))
q("d-q-swap", ("\td.names[i], d.names[j] = d.names[j], d.names[i]\n", "\tname := d.names[i]\n\td.names[i] = d.names[j]\n\td.names[j] = name\n"))
q("d-q-off", ("\t\t\tdirent.NameOff = nameOff\n\t\t\tnameOff += uint16(len(block.names[i]))\n", "\t\t\tname := block.names[i]\n\t\t\tdirent.NameOff = nameOff\n\t\t\tnameOff = nameOff + uint16(len(name))\n"))
q("d-q-off2", ("uint16(int64(len(block.entries)) * DirentSize)", "uint16(len(block.names) * int(DirentSize))"))
q("d-q-off3", ("\t\tnameOff := uint16(int64(len(block.entries)) * DirentSize) // nameoff0\n", "\t\tvar used int\n\t\tfirstName := len(block.entries) * int(DirentSize)\n"),
   ("\t\t\tdirent.NameOff = nameOff\n\t\t\tnameOff += uint16(len(block.names[i]))\n", "\t\t\tdirent.NameOff = uint16(firstName + used)\n\t\t\tused += len(block.names[i])\n"))
q("d-q-loop", ("\t\tfor i, dirent := range block.entries {\n", "\t\tfor i := 0; i < len(block.entries); i++ {\n\t\t\tdirent := block.entries[i]\n"))
q("d-q-split", (SPLIT, "\t\tneed := DirentSize + nameSize\n\t\tif BlockSize-currentBlockSize < need+1 {\n"))
q("d-q-split2", (SPLIT, "\t\tif currentBlockSize+DirentSize+nameSize >= BlockSize {\n"))
q("d-q-split3", (SPLIT, "\t\tif len(currentBlock.entries) > 0 && currentBlockSize+DirentSize+nameSize+1 > BlockSize {\n"))
q("d-q-split4", ("\tcurrentBlockSize := int64(0)\n", "\tcurrentBlockSize := int64(1) // the last name ends with a null\n"), (SPLIT, "\t\tif currentBlockSize+DirentSize+nameSize > BlockSize {\n"), ("\t\t\tcurrentBlockSize = 0\n", "\t\t\tcurrentBlockSize = 1\n"))
q("d-q-split5", ("\t\tnameSize := int64(len(name))\n", "\t\tnameSize := int64(len(name))\n\t\tfits := currentBlockSize+DirentSize+nameSize+1 <= BlockSize\n"), (SPLIT, "\t\tif !fits {\n"))
q("d-q-split6", ("\t\tcurrentBlockSize += DirentSize + nameSize\n", "\t\tcurrentBlockSize += entrySize(name)\n"), (SPLIT, "\t\tif currentBlockSize+entrySize(name)+1 > BlockSize {\n"), ("func offsetToNID(", "func entrySize(name string) int64 {\n\treturn DirentSize + int64(len(name))\n}\n\nfunc offsetToNID("), ("\t\tnameSize := int64(len(name))\n", ""))
q("d-q-last", ("\tif len(currentBlock.entries) > 0 {\n", "\tif n := len(currentBlock.names); n != 0 {\n"))
q("d-q-blk", ("\t\tcurrentBlock.entries = append(currentBlock.entries, dirent)\n\t\tcurrentBlock.names = append(currentBlock.names, name)\n", "\t\tcurrentBlock.names = append(currentBlock.names, name)\n\t\tcurrentBlock.entries = append(currentBlock.entries, dirent)\n"))
q("d-q-write", ("\t\t\tif _, err := buf.WriteString(name); err != nil {", "\t\t\tif _, err := buf.Write([]byte(name)); err != nil {"))
q("d-q-block", ("\tfor i, block := range blocks {\n\t\tnameOff :=", "\tfor i := range blocks {\n\t\tblock := blocks[i]\n\t\tnameOff :="))
q("d-q-pblock", ("\tfor i, block := range blocks {\n\t\tnameOff :=", "\tfor i := range blocks {\n\t\tblock := &blocks[i]\n\t\tnameOff :="))

b("d-limit", ("\t\t\tif len(block.names[i]) > MaxNameLen {\n\t\t\t\treturn nil, fmt.Errorf(\"name too long: %q\", block.names[i])\n\t\t\t}\n\n", ""))
b("d-limit2", ("if len(block.names[i]) > MaxNameLen {", "if len(block.names[i]) > BlockSize {"))
b("d-limit3", ("if len(block.names[i]) > MaxNameLen {", "if len(block.names[i]) > MaxNameLen+1 {"))
q("d-q-limit", ("\t\t\tif len(block.names[i]) > MaxNameLen {\n\t\t\t\treturn nil, fmt.Errorf(\"name too long: %q\", block.names[i])\n\t\t\t}\n\n", ""), ("\t\tfor _, de := range entries {\n", "\t\tfor _, de := range entries {\n\t\t\tif len(de.Name()) > MaxNameLen {\n\t\t\t\treturn nil, 0, fmt.Errorf(\"name too long: %q\", de.Name())\n\t\t\t}\n"))
q("d-q-limit2", ("if len(block.names[i]) > MaxNameLen {", "if n := len(block.names[i]); !(n < MaxNameLen+1) {"))

def b7(id, *edits): bugs.append((id, "W07", [(W, o, n) for o, n in edits]))
def q7(id, *edits): quiet.append((id, "W07", [(W, o, n) for o, n in edits]))
CH = "nid, err := w.nidForPath(filepath.Clean(filepath.Join(path, de.Name())))"
b7("w07-base", (CH, "nid, err := w.nidForPath(filepath.Clean(filepath.Join(filepath.Base(path), de.Name())))"))
b7("w07-parent", ("parent, err := w.nidForPath(filepath.Dir(path))", "parent, err := w.nidForPath(filepath.Dir(filepath.Dir(path)))"))
b7("w07-parent2", ("parent, err := w.nidForPath(filepath.Dir(path))", 'parent, err := w.nidForPath(".")'))
b7("w07-swap", ("dirents := []Dirent{{Nid: uint64(self),", "dirents := []Dirent{{"))
b7("w07-selfparent", ("dirents = append(dirents, Dirent{Nid: uint64(parent),", "_ = parent\n\t\t\tdirents = append(dirents, Dirent{Nid: uint64(self),"))
b7("w07-type", ("\t\t\t\tFileType: uint8(fileTypeFromFileMode(de.Type())),\n", "\t\t\t\tFileType: uint8(fileTypeFromFileMode(de.Type() & fs.ModeDir)),\n"))
b7("w07-typeperm", ("\t\t\t\tFileType: uint8(fileTypeFromFileMode(de.Type())),\n", "\t\t\t\tFileType: uint8(fileTypeFromFileMode(de.Type().Perm())),\n"))
b7("w07-dottype", ('names := []string{"."}\n', 'names := []string{"."}\n\t\tif path != "." {\n\t\t\tdirents[0].FileType = 1\n\t\t}\n'))
q7("w07-q-path", (CH, 'nid, err := w.nidForPath(childPath(path, de.Name()))'), ("func encodeDirents(", 'func childPath(dir, name string) string {\n\tif dir == "." {\n\t\treturn name\n\t}\n\treturn dir + "/" + name\n}\n\nfunc encodeDirents('))
q7("w07-q-dirent", ("\t\t\tdirents = append(dirents, Dirent{\n\t\t\t\tNid:      uint64(nid),\n\t\t\t\tFileType: uint8(fileTypeFromFileMode(de.Type())),\n\t\t\t})\n\t\t\tnames = append(names, de.Name())\n", "\t\t\tvar d Dirent\n\t\t\td.FileType = uint8(fileTypeFromFileMode(de.Type()))\n\t\t\td.Nid = uint64(nid)\n\t\t\tnames = append(names, de.Name())\n\t\t\tdirents = append(dirents, d)\n"))
q7("w07-q-extract", ("\tcase S_IFDIR:\n\t\tentries, err := fs.ReadDir(w.src, path)\n", "\tcase S_IFDIR:\n\t\treturn w.dirData(path)\n\n\tcase S_IFLNK:\n\t\tfsys, ok := w.src.(readLinkFS)\n\t\tif !ok {\n\t\t\treturn nil, 0, errors.New(\"source filesystem must implement readLinkFS\")\n\t\t}\n\n\t\ttarget, err := fsys.ReadLink(path)\n\t\tif err != nil {\n\t\t\treturn nil, 0, fmt.Errorf(\"failed to read symlink target: %w\", err)\n\t\t}\n\n\t\treturn io.NopCloser(bytes.NewReader([]byte(target))), int64(len(target)), nil\n\n\tdefault:\n\t\treturn nil, 0, fmt.Errorf(\"unsupported file type %o\", mode&S_IFMT)\n\t}\n}\n\nfunc (w *writer) dirData(path string) (io.ReadCloser, int64, error) {\n\t\tentries, err := fs.ReadDir(w.src, path)\n"),
 ("\tcase S_IFLNK:\n\t\tfsys, ok := w.src.(readLinkFS)\n\t\tif !ok {\n\t\t\treturn nil, 0, errors.New(\"source filesystem must implement readLinkFS\")\n\t\t}\n\n\t\ttarget, err := fsys.ReadLink(path)\n\t\tif err != nil {\n\t\t\treturn nil, 0, fmt.Errorf(\"failed to read symlink target: %w\", err)\n\t\t}\n\n\t\treturn io.NopCloser(bytes.NewReader([]byte(target))), int64(len(target)), nil\n\n\t// TODO: device files, named pipes, sockets, etc.\n\n\tdefault:\n\t\treturn nil, 0, fmt.Errorf(\"unsupported file type %o\", mode&S_IFMT)\n\t}\n}\n", "}\n"))

b7("w07-trim", (CH, 'nid, err := w.nidForPath(filepath.Clean(filepath.Join(path, filepath.Clean("/" + de.Name())[1:])))'))
b7("w07-space", (CH, 'nid, err := w.nidForPath(filepath.Clean(filepath.Join(path, strings.TrimSpace(de.Name()))))'), ('\t"sort"\n', '\t"sort"\n\t"strings"\n'))
