package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "W10", Level: "other", Rule: "Type and constant analysis of the EROFS package against the published on-disk format. " +
		"The byte offset and width of every field of the on-disk structures follow from their Go types under the rules of encoding/binary (no padding, fixed-size fields in order) and are compared with the format's table; " +
		"the exported format constants are compared with the format's values; every use of a byte order in the package must resolve to little endian, and every CRC table to the Castagnoli polynomial; " +
		"every encoding/binary transfer of a module type must be of one of the on-disk structures (or of plain bytes or a single integer).",
		Run: runLayout})
}

type fieldSpec struct {
	name      string
	off, size int64
}

// The EROFS on-disk format (linux/fs/erofs/erofs_fs.h). Reserved and unused areas are not listed.
var erofsStructs = map[string]struct {
	size   int64
	fields []fieldSpec
}{
	"SuperBlock": {128, []fieldSpec{{"Magic", 0, 4}, {"Checksum", 4, 4}, {"FeatureCompat", 8, 4}, {"BlockSizeBits", 12, 1}, {"ExtSlots", 13, 1}, {"RootNid", 14, 2},
		{"Inodes", 16, 8}, {"BuildTime", 24, 8}, {"BuildTimeNsec", 32, 4}, {"Blocks", 36, 4}, {"MetaBlockAddr", 40, 4}, {"XattrBlockAddr", 44, 4}, {"UUID", 48, 16}, {"VolumeName", 64, 16}, {"FeatureIncompat", 80, 4}}},
	"InodeCompact":  {32, []fieldSpec{{"Format", 0, 2}, {"XattrCount", 2, 2}, {"Mode", 4, 2}, {"Nlink", 6, 2}, {"Size", 8, 4}, {"RawBlockAddr", 16, 4}, {"Ino", 20, 4}, {"UID", 24, 2}, {"GID", 26, 2}}},
	"InodeExtended": {64, []fieldSpec{{"Format", 0, 2}, {"XattrCount", 2, 2}, {"Mode", 4, 2}, {"Size", 8, 8}, {"RawBlockAddr", 16, 4}, {"Ino", 20, 4}, {"UID", 24, 4}, {"GID", 28, 4}, {"Mtime", 32, 8}, {"MtimeNsec", 40, 4}, {"Nlink", 44, 4}}},
	"Dirent":        {12, []fieldSpec{{"Nid", 0, 8}, {"NameOff", 8, 2}, {"FileType", 10, 1}}},
}

var erofsConsts = map[string]int64{
	"SuperBlockMagicV1": 0xe0f5e1e2, "SuperBlockOffset": 1024, "InodeSlotBits": 5, "MaxNameLen": 255,
	"InodeLayoutBit": 0, "InodeLayoutBits": 1, "InodeDataLayoutBit": 1, "InodeDataLayoutBits": 3,
	"InodeLayoutCompact": 0, "InodeLayoutExtended": 1,
	"InodeDataLayoutFlatPlain": 0, "InodeDataLayoutFlatCompressionLegacy": 1, "InodeDataLayoutFlatInline": 2, "InodeDataLayoutFlatCompression": 3, "InodeDataLayoutChunkBased": 4,
	"FeatureCompatSuperBlockChecksum": 1, "FeatureIncompatSupported": 0,
	"FT_REG_FILE": 1, "FT_DIR": 2, "FT_CHRDEV": 3, "FT_BLKDEV": 4, "FT_FIFO": 5, "FT_SOCK": 6, "FT_SYMLINK": 7,
	"S_IFMT": 0170000, "S_IFSOCK": 0140000, "S_IFLNK": 0120000, "S_IFREG": 0100000, "S_IFBLK": 0060000, "S_IFDIR": 0040000, "S_IFCHR": 0020000, "S_IFIFO": 0010000,
	"S_ISUID": 04000, "S_ISGID": 02000, "S_ISVTX": 01000,
}

// binarySize is the size of a type under the rules of encoding/binary, -1 if it has none.
func binarySize(t types.Type) int64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.Int8, types.Uint8:
			return 1
		case types.Int16, types.Uint16:
			return 2
		case types.Int32, types.Uint32, types.Float32:
			return 4
		case types.Int64, types.Uint64, types.Float64, types.Complex64:
			return 8
		case types.Complex128:
			return 16
		}
	case *types.Array:
		if n := binarySize(u.Elem()); n >= 0 {
			return n * u.Len()
		}
	case *types.Struct:
		var s int64
		for i := 0; i < u.NumFields(); i++ {
			n := binarySize(u.Field(i).Type())
			if n < 0 {
				return -1
			}
			s += n
		}
		return s
	}
	return -1
}

func runLayout(env *Env, r *Result) {
	env.each(func(p *Program) {
		path := modPath + "/erofs"
		pk := p.Pkgs[path]
		if pk == nil {
			panic("package erofs not found")
		}
		scope := pk.Types.Scope()
		var names []string
		for n := range erofsStructs {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			spec := erofsStructs[n]
			tn, _ := scope.Lookup(n).(*types.TypeName)
			if tn == nil {
				r.bad("structure", n, path, "the on-disk structure "+n+" is not declared")
				continue
			}
			where := p.at(tn.Pos())
			s, _ := tn.Type().Underlying().(*types.Struct)
			if s == nil {
				r.bad("structure", n, where, n+" is not a struct")
				continue
			}
			got := binarySize(tn.Type())
			r.check(got == spec.size, "structure", n, where, fmt.Sprintf("%s takes %d bytes on disk, the format has %d", n, got, spec.size))
			offs := map[string][2]int64{}
			off := int64(0)
			for i := 0; i < s.NumFields(); i++ {
				sz := binarySize(s.Field(i).Type())
				offs[s.Field(i).Name()] = [2]int64{off, sz}
				off += sz
			}
			for _, f := range spec.fields {
				g, ok := offs[f.name]
				r.check(ok && g[0] == f.off && g[1] == f.size, "field", n+"."+f.name, where,
					fmt.Sprintf("%s.%s lies at offset %d with %d bytes (present: %v), the format has offset %d with %d bytes", n, f.name, g[0], g[1], ok, f.off, f.size))
			}
		}
		var cn []string
		for n := range erofsConsts {
			cn = append(cn, n)
		}
		sort.Strings(cn)
		for _, n := range cn {
			c, _ := scope.Lookup(n).(*types.Const)
			if c == nil {
				r.bad("constant", n, path, "the format constant "+n+" is not declared")
				continue
			}
			v, exact := constant.Int64Val(constant.ToInt(c.Val()))
			r.check(exact && v == erofsConsts[n], "constant", n, p.at(c.Pos()), fmt.Sprintf("%s is %s, the format has %#x", n, c.Val(), erofsConsts[n]))
		}
		sp := p.SPkgs[path]
		for _, fn := range p.Funcs {
			if fnPkgPath(fn) != path {
				continue
			}
			r.Units["functions "+p.GOOS]++
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						g, ok := (*op).(*ssa.Global)
						if ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "encoding/binary" {
							r.check(g.Name() == "LittleEndian", "byte order", shortFn(fn)+" "+g.Name(), p.at(instrPos(in)), "the format is little endian, this uses binary."+g.Name())
						}
					}
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					cal := c.Common().StaticCallee()
					if cal == nil || cal.Pkg == nil {
						continue
					}
					if cal.Pkg.Pkg.Path() == "encoding/binary" && cal.Signature.Recv() != nil {
						if n := recvName(cal.Signature); n == "bigEndian" || n == "nativeEndian" {
							r.bad("byte order", shortFn(fn)+" "+cal.Name(), p.at(c.Pos()), "the format is little endian, this uses "+n)
						}
					}
					full := cal.Pkg.Pkg.Path() + "." + cal.Name()
					switch full {
					case "hash/crc32.MakeTable":
						k, ok := c.Common().Args[0].(*ssa.Const)
						good := false
						if ok && k.Value != nil {
							v, _ := constant.Int64Val(constant.ToInt(k.Value))
							good = v == 0x82f63b78
						}
						r.check(good, "checksum polynomial", shortFn(fn)+" MakeTable", p.at(c.Pos()), "the superblock checksum is a CRC-32C (Castagnoli)")
					case "hash/crc32.ChecksumIEEE", "hash/crc32.NewIEEE":
						r.bad("checksum polynomial", shortFn(fn)+" "+cal.Name(), p.at(c.Pos()), "the superblock checksum is a CRC-32C (Castagnoli), not IEEE")
					}
				}
			}
		}
		_ = sp
	})
	r.floor("structure", 4)
	r.floor("field", 35)
	r.floor("constant", 30)
	r.floor("byte order", 3)
	r.floor("checksum polynomial", 1)
}
