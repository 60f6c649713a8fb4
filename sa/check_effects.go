package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "R08", Level: "other", Rule: "Who-may-call / effect analysis over the SSA form of every function of the library (linux and windows builds). " +
		"Every reference to a function, method or variable outside the module is classified by its resolved object, not by its spelling: a reference is allowed only if it belongs to a package known to be free of host effects " +
		"(deny by default; the path-taking or environment-reading members of otherwise pure packages are denied by name), or is a data-transfer method of *os.File on a handle the caller passed in. " +
		"unsafe, print/println and references to third-party code are violations; so are goroutines, which would outlive the call.",
		Run: runEffects})
}

// packages without any host effect
var purePkgs = map[string]bool{
	"bytes": true, "strings": true, "errors": true, "io": true, "io/fs": true, "path": true, "sort": true, "slices": true,
	"maps": true, "cmp": true, "iter": true, "math": true, "math/bits": true, "math/big": true, "strconv": true,
	"unicode": true, "unicode/utf8": true, "unicode/utf16": true, "bufio": true, "container/list": true, "container/heap": true, "container/ring": true,
	"sync": true, "sync/atomic": true, "context": true, "archive/tar": true, "hash": true, "hash/crc32": true, "hash/crc64": true, "hash/fnv": true, "hash/adler32": true,
	"encoding": true, "encoding/binary": true, "encoding/hex": true, "encoding/base64": true, "encoding/json": true,
	"compress/gzip": true, "compress/flate": true, "compress/zlib": true, "compress/bzip2": true, "compress/lzw": true,
	"crypto/sha1": true, "crypto/sha256": true, "crypto/sha512": true, "crypto/md5": true, "crypto/subtle": true, "reflect": true, "regexp": true, "text/tabwriter": true,
}

// packages that are pure except for the listed members
var mixedPkgs = map[string]map[string]bool{
	"fmt":           set("Print", "Printf", "Println", "Scan", "Scanf", "Scanln"),
	"path/filepath": set("Abs", "EvalSymlinks", "Walk", "WalkDir", "Glob"),
	"time":          set("Now", "Since", "Until", "Sleep", "After", "AfterFunc", "Tick", "NewTimer", "NewTicker", "LoadLocation"),
}

// members of os that do not touch the host on their own
var osAllowed = set("FileMode", "IsNotExist", "IsExist", "IsPermission", "IsPathSeparator", "ErrNotExist", "ErrExist", "ErrInvalid", "ErrPermission", "ErrClosed", "SameFile")

// data transfer methods of *os.File
var osFileAllowed = set("Truncate", "Write", "WriteAt", "WriteString", "Read", "ReadAt", "ReadFrom", "WriteTo", "Seek", "Stat", "Name", "Sync")

func set(l ...string) map[string]bool {
	m := map[string]bool{}
	for _, s := range l {
		m[s] = true
	}
	return m
}

// externalObject decides whether the library may refer to a function or variable outside the module.
func externalAllowed(pkg, recv, name string) (bool, string) {
	switch {
	case purePkgs[pkg]:
		return true, ""
	case mixedPkgs[pkg] != nil:
		if recv == "" && mixedPkgs[pkg][name] {
			return false, fmt.Sprintf("%s.%s reads or changes the state of the host", pkg, name)
		}
		return true, ""
	case pkg == "os":
		if recv == "File" {
			if osFileAllowed[name] {
				return true, ""
			}
			return false, fmt.Sprintf("(*os.File).%s is not a data transfer on the caller's handle", name)
		}
		if recv != "" && !set("PathError", "LinkError", "SyscallError", "FileMode")[recv] {
			return false, fmt.Sprintf("os.%s.%s reaches the host", recv, name)
		}
		if recv == "" && !osAllowed[name] {
			return false, fmt.Sprintf("os.%s reaches the host's files, environment or processes", name)
		}
		return true, ""
	case pkg == "io/ioutil":
		if set("ReadAll", "NopCloser", "Discard")[name] {
			return true, ""
		}
	case pkg == "syscall":
		if recv == "" && strings.HasPrefix(name, "E") { // errno constants are folded, variables such as EINVAL are not
			return true, ""
		}
	case pkg == "runtime":
		if name == "KeepAlive" {
			return true, ""
		}
	}
	what := name
	if recv != "" {
		what = recv + "." + name
	}
	return false, fmt.Sprintf("%s.%s is outside the packages known to be free of effects on the host", pkg, what)
}

func recvName(sig *types.Signature) string {
	if sig == nil || sig.Recv() == nil {
		return ""
	}
	if n := namedOf(sig.Recv().Type()); n != nil {
		return n.Obj().Name()
	}
	return "?"
}

func runEffects(env *Env, r *Result) {
	env.each(func(p *Program) {
		for _, pk := range p.Pkgs {
			for _, imp := range pk.Imports {
				if imp.PkgPath == "unsafe" || imp.PkgPath == "C" {
					r.bad("unsafe", pk.PkgPath+" "+imp.PkgPath, pk.PkgPath, "package "+pk.PkgPath+" imports "+imp.PkgPath+": effects cannot be bounded")
				}
			}
		}
		for _, fn := range p.Funcs {
			r.Units["functions "+p.GOOS]++
			name := shortFn(fn)
			note := func(in ssa.Instruction, pkg, recv, obj string) {
				if inModulePath(pkg) {
					return
				}
				r.Units["external references "+p.GOOS]++
				if obj == "init" && recv == "" {
					return
				}
				full := obj
				if recv != "" {
					full = recv + "." + obj
				}
				ok, why := externalAllowed(pkg, recv, obj)
				r.check(ok, "external", name+" -> "+pkg+"."+full, p.at(instrPos(in)), why+"; it is used in "+name)
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch i := in.(type) {
					case *ssa.Go:
						r.bad("goroutine", name+" go", p.at(i.Pos()), name+" starts a goroutine")
					case ssa.CallInstruction:
						c := i.Common()
						if c.IsInvoke() {
							m := c.Method
							if m.Pkg() != nil && !inModulePath(m.Pkg().Path()) {
								// a call on a value whose type is an interface: the concrete type belongs to the caller or
								// is created somewhere in this library, where its constructor is checked
								r.Units["interface calls "+p.GOOS]++
							}
						}
						if b, ok := c.Value.(*ssa.Builtin); ok && (b.Name() == "print" || b.Name() == "println") {
							r.bad("external", name+" -> "+b.Name(), p.at(in.Pos()), name+" writes to standard error with "+b.Name())
						}
					case *ssa.Convert:
						if isUnsafe(i.Type()) || isUnsafe(i.X.Type()) {
							r.bad("unsafe", name+" unsafe.Pointer", p.at(in.Pos()), name+" converts through unsafe.Pointer")
						}
					}
					for _, op := range in.Operands(nil) {
						if *op == nil {
							continue
						}
						switch v := (*op).(type) {
						case *ssa.Function:
							if v.Object() == nil && v.Pkg == nil && v.Origin() == nil && v.Parent() != nil {
								continue
							}
							noteFn(v, func(pkg, recv, obj string) { note(in, pkg, recv, obj) })
						case *ssa.Global:
							if v.Pkg != nil {
								note(in, v.Pkg.Pkg.Path(), "", v.Name())
							}
						}
					}
				}
			}
		}
	})
	r.floor("external", 100)
}

func noteFn(v *ssa.Function, f func(pkg, recv, obj string)) {
	if o := v.Origin(); o != nil {
		v = o
	}
	if v.Synthetic != "" && v.Object() != nil {
		// wrappers, bound methods and thunks stand for the declared method
		if fo, ok := v.Object().(*types.Func); ok && fo.Pkg() != nil {
			f(fo.Pkg().Path(), recvName(fo.Type().(*types.Signature)), fo.Name())
			return
		}
	}
	pkg := fnPkgPath(v)
	if pkg == "" {
		return // error.Error and the like
	}
	f(pkg, recvName(v.Signature), v.Name())
}

func isUnsafe(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}
