package main

import (
	"fmt"
	"strconv"

	"github.com/sassoftware/go-rpmutils"
)

// fileRec is one packaged file.
type fileRec struct {
	dir, base string
	size      uint64
	user      string
	group     string
	flags     uint32
	mtime     uint32
	digest    string
	mode      uint16
	link      string
	dev, ino  uint32
}

func (f fileRec) name() string { return f.dir + f.base }

// fileOpt says how the file list is stored.
type fileOpt struct {
	old     bool // OLDFILENAMES instead of the triple
	sizes   int  // 0 FILESIZES, 1 LONGFILESIZES, 2 both (FILESIZES holding other values)
	noDev   bool
	noIno   bool
	dirs    []string // order of DIRNAMES; filled in if empty
	modes32 bool     // modes stored as INT32 (as some builders do)
}

// fileTags makes the parallel arrays.
func fileTags(files []fileRec, o fileOpt) []tagv {
	if len(files) == 0 {
		return nil
	}
	dirs := append([]string{}, o.dirs...)
	idx := map[string]uint32{}
	for i, d := range dirs {
		if _, ok := idx[d]; !ok {
			idx[d] = uint32(i)
		}
	}
	var names, bases, users, groups, digests, links []string
	var di, sizes, flags, mtimes, devs, inos []uint32
	var longs []uint64
	var modes []uint16
	for _, f := range files {
		if _, ok := idx[f.dir]; !ok {
			idx[f.dir] = uint32(len(dirs))
			dirs = append(dirs, f.dir)
		}
		di = append(di, idx[f.dir])
		bases = append(bases, f.base)
		names = append(names, f.name())
		users = append(users, f.user)
		groups = append(groups, f.group)
		digests = append(digests, f.digest)
		links = append(links, f.link)
		sz := uint32(f.size)
		if o.sizes == 2 {
			sz = ^sz
		}
		sizes = append(sizes, sz)
		longs = append(longs, f.size)
		flags = append(flags, f.flags)
		mtimes = append(mtimes, f.mtime)
		devs = append(devs, f.dev)
		inos = append(inos, f.ino)
		modes = append(modes, f.mode)
	}
	var ts []tagv
	if o.old {
		ts = append(ts, tStrs(1027, tStrArray, names...))
	} else {
		ts = append(ts, tU32(1116, di...), tStrs(1117, tStrArray, bases...), tStrs(1118, tStrArray, dirs...))
	}
	if o.sizes != 1 {
		ts = append(ts, tU32(1028, sizes...))
	}
	if o.sizes != 0 {
		ts = append(ts, tU64(5008, longs...))
	}
	if o.modes32 {
		var m []uint32
		for _, v := range modes {
			m = append(m, uint32(v))
		}
		ts = append(ts, tU32(1030, m...))
	} else {
		ts = append(ts, tU16(1030, modes...))
	}
	ts = append(ts, tU32(1034, mtimes...), tStrs(1035, tStrArray, digests...), tStrs(1036, tStrArray, links...), tU32(1037, flags...),
		tStrs(1039, tStrArray, users...), tStrs(1040, tStrArray, groups...))
	if !o.noDev {
		ts = append(ts, tU32(1095, devs...))
	}
	if !o.noIno {
		ts = append(ts, tU32(1096, inos...))
	}
	return ts
}

// matchFile compares a FileInfo with the record it should show.
func matchFile(fi rpmutils.FileInfo, f fileRec, o fileOpt) error {
	dev, ino := f.dev, f.ino
	if o.noDev {
		dev = 0
	}
	if o.noIno {
		ino = 0
	}
	got := fmt.Sprintf("name=%q size=%d user=%q group=%q flags=%d mtime=%d digest=%q mode=%o link=%q dev=%d ino=%d", fi.Name(), uint64(fi.Size()), fi.UserName(), fi.GroupName(), fi.Flags(), fi.Mtime(), fi.Digest(), fi.Mode(), fi.Linkname(), fi.Device(), fi.Inode())
	want := fmt.Sprintf("name=%q size=%d user=%q group=%q flags=%d mtime=%d digest=%q mode=%o link=%q dev=%d ino=%d", f.name(), f.size, f.user, f.group, f.flags, f.mtime, f.digest, f.mode, f.link, dev, ino)
	if got != want {
		return fmt.Errorf("got %s, want %s", got, want)
	}
	return nil
}

func headerOnly(x *X, gen []tagv, g hdrOpt) *rpmutils.RpmHeader {
	raw := append(buildLead("x", false), buildHdr([]tagv{tU32(sigSize, 1)}, hdrOpt{sig: true, region: 62})...)
	raw = append(raw, buildHdr(gen, g)...)
	return mustRead(x, raw)
}

func baseGen() []tagv {
	return []tagv{tStr(1000, "pkg"), tStr(1001, "1.0"), tStr(1002, "2"), tStr(1022, "noarch")}
}

func checkFiles(x *X, h *rpmutils.RpmHeader, files []fileRec, o fileOpt) {
	x.Step()
	got, err := h.GetFiles()
	if err != nil {
		x.Fail("GetFiles of a well-formed package with %d files: %v", len(files), err)
	}
	if len(got) != len(files) {
		x.Fail("GetFiles gives %d files, want %d", len(got), len(files))
	}
	for i := range files {
		if err := matchFile(got[i], files[i], o); err != nil {
			x.Fail("file %d of %d: %v", i, len(files), err)
		}
	}
	if len(files) > 0 {
		// the documented splice of directories and basenames
		names, err := h.GetStrings(1027)
		v, err2 := h.Get(1027)
		vs, _ := v.([]string)
		x.StepN(2)
		if err != nil || err2 != nil || len(names) != len(files) || !sameStrs(names, vs) {
			x.Fail("GetStrings(OLDFILENAMES) = %q, %v; Get = %q, %v", names, err, v, err2)
		}
		for i, f := range files {
			if names[i] != f.name() {
				x.Fail("OLDFILENAMES[%d] = %q, want %q", i, names[i], f.name())
			}
		}
	}
	x.Validated()
}

var (
	bigSizes  = []uint64{0, 1, 1<<31 - 1, 1 << 31, 1<<32 - 1}
	longSizes = []uint64{1 << 32, 1<<32 + 7, 1<<62 + 1, 1<<63 - 1}
	u32Edge   = []uint32{0, 1, 1<<31 - 1, 1 << 31, 1<<32 - 1}
	modeEdge  = []uint16{0100644, 0040755, 0120777, 0010600, 0020666, 0060660, 0140777, 0104755, 0177777, 0}
)

// defFile makes a record whose every value tells its position.
func defFile(i int, dir, base string) fileRec {
	return fileRec{
		dir: dir, base: base, size: uint64(1000 + i), user: fmt.Sprintf("u%d", i), group: fmt.Sprintf("g%d", i), flags: uint32(16 + i), mtime: uint32(1500000000 + i),
		digest: fmt.Sprintf("%064d", i), mode: uint16(0100600 + i), link: fmt.Sprintf("l%d", i), dev: uint32(7 + i), ino: uint32(100 + i),
	}
}

func init() {
	register(&Prop{
		ID:     "C04",
		Bits32: func(part string) bool { return part != "attributes" },
		Assumptions: []string{"directory names end in a slash (or are empty) as rpm writes them; attribute arrays have one element per file",
			"on platforms with 32-bit integers modification times, flags, inode and device numbers stay below 2^31 (FileInfo returns them as int)"},
		Parts: func(tier string) []*Part {
			maxFiles, maxEdge := 3, 1
			if tier == "thorough" {
				maxFiles, maxEdge = 4, 2
			}
			dirPool := []string{"/", "/usr/", "/usr/bin/", "/ü/", ""}
			basePool := []string{"a", "b", ".c", "d e\xff"}
			return []*Part{
				{
					Name: "names",
					Desc: fmt.Sprintf("file lists of 0..%d files, each in any of 5 directories with any of 4 basenames, directory table in order of use or with unused directories first, both name encodings, 3 size encodings, with and without device and inode arrays, 2 header layouts", maxFiles),
					Run: func(x *X) {
						n := x.Choose(maxFiles + 1)
						var files []fileRec
						for i := 0; i < n; i++ {
							d := x.Choose(len(dirPool))
							b := x.Choose(len(basePool))
							base := basePool[b]
							files = append(files, defFile(i, dirPool[d], base))
						}
						o := fileOpt{old: x.Bool(), sizes: x.Choose(3), noDev: x.Bool(), noIno: x.Bool()}
						if !o.old && x.Bool() {
							o.dirs = []string{"/zzz/", "/usr/bin/", "/usr/"}
						}
						g := hdrOpt{region: 63}
						if n < 3 && x.Bool() {
							g = hdrOpt{reverse: true, unsort: true}
						}
						h := headerOnly(x, append(baseGen(), fileTags(files, o)...), g)
						x.State(x.prefix())
						checkFiles(x, h, files, o)
						if n <= 1 {
							checkFiles(x, h, files, o)
						}
						x.Logf("%d files %v", n, files)
					},
				},
				{
					Name: "root-entry", Desc: "packages owning / itself or a directory whose record has an empty basename at the root, alone or next to others",
					Run: func(x *X) {
						files := []fileRec{defFile(0, "/", "")}
						files[0].mode = 040755
						if x.Bool() {
							files = append(files, defFile(1, "/", "etc"))
						}
						if x.Bool() {
							files[0], files[len(files)-1] = files[len(files)-1], files[0]
						}
						o := fileOpt{old: x.Bool()}
						checkFiles(x, headerOnly(x, append(baseGen(), fileTags(files, o)...), hdrOpt{region: 63}), files, o)
						x.State(x.prefix())
					},
				},
				{
					Name: "attributes", Budget: maxEdge + 1,
					Desc: fmt.Sprintf("1..3 files; up to %d attributes of any of the files at any boundary value (sizes to 2^63-1, 32-bit edges, all file types, empty and non-ASCII strings), 3 size encodings, modes as INT16 or INT32", maxEdge+1),
					Run: func(x *X) {
						n := 1 + x.Choose(3)
						o := fileOpt{sizes: x.Choose(3), modes32: x.Bool(), old: x.Bool()}
						var files []fileRec
						strs := []string{"", "é\xff", "with space"}
						sz := append([]uint64{}, bigSizes...)
						if o.sizes != 0 {
							sz = append(sz, longSizes...)
						}
						for i := 0; i < n; i++ {
							f := defFile(i, "/d/", string(rune('a'+i)))
							if k := x.Dev(len(sz) + 1); k > 0 {
								f.size = sz[k-1]
							}
							for _, p := range []*string{&f.user, &f.group, &f.digest, &f.link} {
								if k := x.Dev(len(strs) + 1); k > 0 {
									*p = strs[k-1]
								}
							}
							for _, p := range []*uint32{&f.flags, &f.mtime, &f.dev, &f.ino} {
								if k := x.Dev(len(u32Edge) + 1); k > 0 {
									*p = u32Edge[k-1]
								}
							}
							if k := x.Dev(len(modeEdge) + 1); k > 0 {
								f.mode = modeEdge[k-1]
							}
							files = append(files, f)
						}
						h := headerOnly(x, append(baseGen(), fileTags(files, o)...), hdrOpt{region: 63})
						x.State(x.prefix())
						checkFiles(x, h, files, o)
						x.Logf("%+v", files)
					},
				},
				{
					Name: "many-files", Desc: "lists of 255, 256, 257, 1000, 65535, 65536 and 70000 files in 300 directories",
					Run: func(x *X) {
						n := []int{255, 256, 257, 1000, 65535, 65536, 70000}[x.Choose(7)]
						var files []fileRec
						for i := 0; i < n; i++ {
							files = append(files, defFile(i, fmt.Sprintf("/d%d/", i*7%300), strconv.Itoa(i)))
						}
						o := fileOpt{old: x.Bool()}
						checkFiles(x, headerOnly(x, append(baseGen(), fileTags(files, o)...), hdrOpt{region: 63}), files, o)
						x.State(n, o.old)
					},
				},
				{
					Name: "every-byte",
					Desc: "a list of 1 to 3 files, one of which has a basename, link target, digest, user or group with any byte (but no path . or ..) alone, doubled, first, last or in the middle; any of the 65536 modes; any single bit set or clear in size, modification time, flags, device or inode; both name encodings",
					Run: func(x *X) {
						n := 1 + x.Choose(3)
						at := x.Choose(n)
						var files []fileRec
						for i := range n {
							files = append(files, defFile(i, "/d/", string(rune('a'+i))))
						}
						f := &files[at]
						o := fileOpt{old: x.Bool()}
						switch k := x.Choose(11); k {
						case 0, 1, 2, 3, 4:
							b := byte(1 + x.Choose(255))
							v := string([][]byte{{b}, {b, b}, {b, 'a'}, {'a', b}, {'a', b, 'a'}}[x.Choose(5)])
							p := []*string{&f.base, &f.link, &f.digest, &f.user, &f.group}[k]
							if k == 0 && (b == '/' || v == "." || v == "..") {
								return
							}
							*p = v
						case 5:
							if n > 1 {
								return
							}
							f.mode = uint16(x.Choose(256)<<8 | x.Choose(256))
							o.modes32 = x.Bool()
						case 6:
							o.sizes = x.Choose(3)
							bits := 63
							if o.sizes == 0 {
								bits = 32
							}
							f.size = 1 << x.Choose(bits)
							if x.Bool() {
								f.size ^= 1<<bits - 1
							}
						default:
							p := []*uint32{&f.mtime, &f.flags, &f.dev, &f.ino}[k-7]
							bits := 32
							if strconv.IntSize == 32 {
								bits = 31
							}
							*p = 1 << x.Choose(bits)
							if x.Bool() {
								*p ^= 1<<bits - 1
							}
						}
						h := headerOnly(x, append(baseGen(), fileTags(files, o)...), hdrOpt{region: 63})
						x.State(x.prefix())
						checkFiles(x, h, files, o)
						x.Logf("%+v", files)
					},
				},
				{
					Name: "nevra-bytes",
					Desc: "name, version, release or arch with any byte alone, doubled, first, last or in the middle, each single bit of the epoch set or clear",
					Run: func(x *X) {
						v := [4]string{"n", "v", "r", "a"}
						var e uint32
						if k := x.Choose(5); k < 4 {
							b := byte(1 + x.Choose(255))
							v[k] = string([][]byte{{b}, {b, b}, {b, 'a'}, {'a', b}, {'a', b, 'a'}}[x.Choose(5)])
						} else {
							e = 1 << x.Choose(32)
							if x.Bool() {
								e = ^e
							}
						}
						h := headerOnly(x, []tagv{tStr(1000, v[0]), tStr(1001, v[1]), tStr(1002, v[2]), tU32(1003, e), tStr(1022, v[3])}, hdrOpt{region: 63})
						x.Step()
						got, err := h.GetNEVRA()
						if err != nil {
							x.Fail("GetNEVRA: %v", err)
						}
						es := strconv.FormatUint(uint64(e), 10)
						if *got != (rpmutils.NEVRA{Name: v[0], Epoch: es, Version: v[1], Release: v[2], Arch: v[3]}) {
							x.Fail("GetNEVRA = %+v, want %q with epoch %s", *got, v, es)
						}
						if s, w := got.String(), v[0]+"-"+es+":"+v[1]+"-"+v[2]+"."+v[3]+".rpm"; s != w {
							x.Fail("String of %+v = %q, want %q", *got, s, w)
						}
						x.State(x.prefix())
						x.Validated()
						x.Logf("%+v", *got)
					},
				},
				{
					Name: "nevra", Desc: "name, version, release, arch from 5 strings each (empty, dashes, non-ASCII, long), epoch absent or any boundary value, summary-like tags as STRING or I18NSTRING",
					Run: func(x *X) {
						pool := []string{"a", "", "a-b-c", "é\xff", "1.0~rc1^2"}
						v := [4]string{pool[x.Choose(5)], pool[x.Choose(5)], pool[x.Choose(5)], pool[x.Choose(5)]}
						for i := range v {
							v[i] += string(rune('0' + i))
						}
						ts := []tagv{tStr(1000, v[0]), tStr(1001, v[1]), tStr(1002, v[2]), tStr(1022, v[3]), tStr(1004, "summary")}
						want := "0"
						if k := x.Choose(len(u32Edge) + 1); k > 0 {
							ts = append(ts, tU32(1003, u32Edge[k-1]))
							want = strconv.FormatUint(uint64(u32Edge[k-1]), 10)
						}
						h := headerOnly(x, ts, hdrOpt{region: 63})
						x.Step()
						got, err := h.GetNEVRA()
						if err != nil {
							x.Fail("GetNEVRA: %v", err)
						}
						if *got != (rpmutils.NEVRA{Name: v[0], Epoch: want, Version: v[1], Release: v[2], Arch: v[3]}) {
							x.Fail("GetNEVRA = %+v, want %q with epoch %s", *got, v, want)
						}
						if s, w := got.String(), v[0]+"-"+want+":"+v[1]+"-"+v[2]+"."+v[3]+".rpm"; s != w {
							x.Fail("String of %+v = %q, want %q", *got, s, w)
						}
						x.State(x.prefix())
						x.Validated()
						x.Logf("%+v", *got)
					},
				},
			}
		},
	})
}
