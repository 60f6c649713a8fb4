from cases import A,AC,T,TC,E,R,W,M
SAN='''	return strings.TrimPrefix(path.Clean("/"+filepath.ToSlash(strings.TrimSpace(name))), "/")'''
bugs = [
 ('r15-dot','R15',[(A,SAN,'''	return strings.TrimPrefix(strings.TrimPrefix(filepath.Clean(filepath.ToSlash(strings.TrimSpace(name))), "."), "/")'''),(A,'''	"path"
''','''''')]),
 ('r15-tardot','R15',[(T,SAN,'''	return strings.TrimLeft(path.Clean(filepath.ToSlash(strings.TrimSpace(name))), "./")''')]),
 ('r15-lower','R15',[(A,'''	name = sanitizePath(name)

	e, ok := fsys.entries[name]
	if !ok {
		return nil, fs.ErrNotExist
	}

	return &file''','''	name = sanitizePath(name)

	e, ok := fsys.entries[name]
	if !ok {
		e, ok = fsys.entries[strings.ToLower(name)]
	}
	if !ok {
		return nil, fs.ErrNotExist
	}

	return &file''')]),
 ('r15-under','R15',[(A,SAN,'''	return strings.TrimSuffix(strings.TrimPrefix(path.Clean("/"+filepath.ToSlash(strings.TrimSpace(name))), "/"), ".")''')]),
 ('r15-name','R15',[(T,'''	return filepath.Base(d.Header.Name)''','''	return strings.TrimSuffix(filepath.Base(d.Header.Name), "~")''')]),
 ('r15-split','R15',[(M,'''	parts := strings.Split(path, "/")

	cur := rootFS.dir''','''	parts := strings.FieldsFunc(path, func(r rune) bool { return r == '/' || r == '\\\\' })

	cur := rootFS.dir''')]),
 ('r15-cut','R15',[(A,'''		Filename: sanitizePath(string(line[0:16])),''','''		Filename: sanitizePath(firstWord(string(line[0:16]))),'''),(A,'''func sanitizePath(''','''func firstWord(s string) string {
	if w := strings.Fields(s); len(w) > 0 {
		return w[0]
	}
	return s
}

func sanitizePath(''')]),
 ('r15-col','R15',[(A,"sanitizePath(string(line[0:16]))","sanitizePath(string(line[0:15]))")]),
 ('r15-wr','R15',[(AC,"	name := sanitizePath(hdr.Name)","	name := strings.ToLower(sanitizePath(hdr.Name))"),(AC,"""	"strconv"
""","""	"strconv"
	"strings"
""")]),
 ('r15-wr2','R15',[(W,"		name := names[i]\n","		name := strings.ReplaceAll(names[i], \":\", \"_\")\n"),(W,"""	"sort"
""","""	"sort"
	"strings"
""")]),
 ('r15-tarc','R15',[(TC,"		hdr.Name = path\n","		hdr.Name = strings.TrimRight(path, \".\")\n"),(TC,"""	"io/fs"
""","""	"io/fs"
	"strings"
""")]),
 ('r15-hid','R15',[(T,SAN,"""	name = strings.TrimPrefix(path.Clean("/"+filepath.ToSlash(strings.TrimSpace(name))), "/")
	if len(name) > 1 && name[0] == '.' {
		name = name[1:]
	}
	return name""")]),
 ('r15-suf','R15',[(A,SAN,"""	name = strings.TrimPrefix(path.Clean("/"+filepath.ToSlash(strings.TrimSpace(name))), "/")
	if strings.HasSuffix(name, ".") {
		name = name[:len(name)-1]
	}
	return name""")]),
 ('r15-ver','R15',[(E,'''	for _, part := range strings.Split(filepath.ToSlash(path), "/") {''','''	for _, part := range strings.Split(strings.ReplaceAll(filepath.ToSlash(path), "%2F", "/"), "/") {''')]),
]
quiet = [
 ('q-r15-san','R15',[(T,SAN,'''	name = strings.TrimSpace(name)
	name = filepath.ToSlash(name)
	name = path.Clean("/" + name)
	return name[1:]''')]),
 ('q-r15-wr','R15',[(AC,"""	arHeader := fmt.Sprintf(
		"%-16s%-12s%-6s%-6s%-8s%-10s`\\n",
		name,""","""	padded := name + strings.Repeat(" ", 16-len(name))
	arHeader := padded + fmt.Sprintf(
		"%-12s%-6s%-6s%-8s%-10s`\\n",
"""),(AC,"""	"strconv"
""","""	"strconv"
	"strings"
""")]),
 ('q-r15-idx0','R15',[(T,SAN,"""	name = path.Clean("/"+filepath.ToSlash(strings.TrimSpace(name)))
	for len(name) > 0 && name[0] == '/' {
		name = name[1:]
	}
	return name""")]),
 ('q-r15-dotslash','R15',[(A,SAN,"""	name = filepath.ToSlash(strings.TrimSpace(name))
	for strings.HasPrefix(name, "./") {
		name = name[2:]
	}
	return strings.TrimPrefix(path.Clean("/"+name), "/")""")]),
 ('q-r15-cut','R15',[(A,SAN,'''	cleaned := path.Join("/", filepath.ToSlash(strings.TrimSpace(name)))
	rest, _ := strings.CutPrefix(cleaned, "/")
	return rest''')]),
 ('q-r15-loop','R15',[(T,'''	for _, component := range strings.Split(filepath.ToSlash(name), "/") {''','''	for rest, more := filepath.ToSlash(name), true; more; {
		var component string
		component, rest, more = strings.Cut(rest, "/")''')]),
 ('q-r15-trim','R15',[(M,'''	dirPart = strings.TrimSuffix(dirPart, "/")''','''	dirPart = strings.TrimRight(dirPart, "/")''')]),
 ('q-r15-idx','R15',[(M,'''	dirPart, filePart := syspath.Split(path)

	dirPart = strings.TrimSuffix(dirPart, "/")''','''	dirPart, filePart := "", path
	if i := strings.LastIndex(path, "/"); i >= 0 {
		dirPart, filePart = path[:i], path[i+1:]
	}'''),(M,'''	syspath "path"
''','')]),
]
