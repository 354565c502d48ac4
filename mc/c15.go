package main

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"io"
	"os"
	"path"
	"sort"
	"strconv"
	"strings"
	"syscall"

	rpmutils "github.com/sassoftware/go-rpmutils"
	"github.com/sassoftware/go-rpmutils/cpio"
)

// treeModel predicts the tree that an archive of distinct names describes.
type treeModel struct {
	nodes map[string]node
	umask uint32
}

func cleanEntryName(name string) string {
	return strings.TrimPrefix(path.Clean("/"+name), "/")
}

// buildTree gives the tree, or false where the archive is not one whose
// extraction has to succeed (then it may still be what has to come out).
func buildTree(ents []cent, umask uint32) (tree map[string]node, wellFormed bool) {
	tree = map[string]node{}
	wellFormed = true
	parents := func(name string) {
		for p := path.Dir(name); p != "." && p != "/"; p = path.Dir(p) {
			if _, ok := tree[p]; !ok {
				tree[p] = node{kind: "dir", perm: os.FileMode(0755 &^ umask)}
			}
		}
	}
	type key struct{ ino, maj, min uint32 }
	groups := map[key][]int{}
	for i, e := range ents {
		name := cleanEntryName(e.name)
		perm := os.FileMode(e.mode & 0777 &^ umask)
		switch e.mode &^ 07777 {
		case mCHR, mBLK:
			parents(name)
			continue
		case mDIR:
			if name == "" {
				continue
			}
			parents(name)
			if _, ok := tree[name]; !ok {
				tree[name] = node{kind: "dir", perm: perm}
			} else {
				wellFormed = false // directory after what it holds
			}
		case mLNK:
			parents(name)
			tree[name] = node{kind: "link", perm: 0777, data: string(e.data)}
		case mFIF:
			parents(name)
			tree[name] = node{kind: "fifo", perm: perm}
		case mREG:
			parents(name)
			tree[name] = node{kind: "file", data: string(e.data)}
			if e.nlink > 1 {
				k := key{e.ino, e.devmajor, e.devminor}
				groups[k] = append(groups[k], i)
			}
		default:
			wellFormed = false
		}
	}
	for _, members := range groups {
		last := ents[members[len(members)-1]]
		data := last.data
		if int(last.nlink) != len(members) {
			wellFormed = false
		}
		var names []string
		for _, i := range members[:len(members)-1] {
			if len(ents[i].data) > 0 {
				wellFormed = false
				if len(data) == 0 {
					data = ents[i].data
				}
			}
		}
		for _, i := range members {
			names = append(names, cleanEntryName(ents[i].name))
		}
		sort.Strings(names)
		for _, name := range names {
			n := tree[name]
			n.data = string(data)
			if len(names) > 1 {
				n.group = strings.Join(names, ",")
			}
			tree[name] = n
		}
	}
	return tree, wellFormed
}

// compareTree compares what is below dest with the expected tree; file
// permissions are not claimed.
func compareTree(want map[string]node, dest string) string {
	got := snapshot(dest)
	delete(got, ".")
	for k, n := range got {
		if n.kind == "file" {
			n.perm = 0
			got[k] = n
		}
	}
	return diffSnap(want, got, false)
}

func gz(b []byte) []byte {
	var out bytes.Buffer
	w := gzip.NewWriter(&out)
	w.Write(b)
	w.Close()
	return out.Bytes()
}

// expandStream extracts by way of a package read from a stream in pieces.
func expandStream(payload []byte, compressor string, mode int, dest string) error {
	p := newPkg()
	p.payload = payload
	if compressor != "" {
		p.gen = append(p.gen, tStr(1125, compressor))
	}
	rpm, err := rpmutils.ReadRpm(newChunk(p.build().raw, mode))
	if err != nil {
		panic("harness: " + err.Error())
	}
	return rpm.ExpandPayload(dest)
}

var c15ways = []string{"Extract", "ExpandPayload", "ExpandPayload of gzip"}

func c15extract(way, chunks int, raw []byte, dest string) error {
	switch way {
	case 0:
		return cpio.Extract(newChunk(raw, chunks), dest)
	case 1:
		return expandStream(raw, "", chunks, dest)
	default:
		return expandStream(gz(raw), "gzip", chunks, dest)
	}
}

func c15judge(x *X, ents []cent, umask uint32, err error, dest, what string) {
	want, well := buildTree(ents, umask)
	x.Outcome(what, fmt.Sprint(err))
	what += " [" + c14describe(ents, x.w.dir) + "]"
	if err != nil {
		if well {
			x.Fail("%s: %v", what, err)
		}
		return
	}
	if _, err := os.Lstat(dest); os.IsNotExist(err) && len(want) == 0 {
		x.Validated()
		return
	}
	if d := compareTree(want, dest); d != "" {
		x.Fail("%s succeeds but %s", what, d)
	}
	x.Validated()
}

// c15slots: names in a tree, in several spellings.
var c15names = []string{"f", "d", "d/g", "d/e", "d/e/h", "./f2", "/abs/k", "d//e/./m", "d/../top", "x/y/z", "name with \xff\n and more", "d/" + strings.Repeat("n", 255)}

var c15kinds = []struct {
	mode uint32
	size int
	text string
}{
	{mREG | 0644, 5, ""}, {mDIR | 0755, 0, ""}, {mLNK | 0777, 0, "d/../f"}, {mREG | 0755, 0, ""}, {mFIF | 0662, 0, ""}, {mDIR | 0737, 0, ""},
	{mREG | 0600, 4, ""}, {mCHR | 0600, 0, ""}, {mBLK | 0600, 0, ""}, {mDIR | 01775, 0, ""}, {mLNK | 0777, 0, "/nowhere at all"}, {mREG | 04755, 70000, ""},
	{mLNK | 0777, 0, "\xfe" + strings.Repeat("t/", 2000)}, {mFIF | 0666, 0, ""}, {mREG | 0444, 32768, ""}, {mDIR | 0777, 0, ""}, {mREG, 1, ""}, {mLNK | 0777, 0, "d"},
}

func c15entry(k, name int, seed int) cent {
	kd := c15kinds[k]
	e := cent{name: c15names[name], mode: kd.mode, nlink: 1, ino: uint32(100 + seed), mtime: 1000, data: []byte(kd.text)}
	if kd.size > 0 {
		e.data = fileData(seed+1, kd.size)
	}
	if kd.mode&^07777 == mDIR {
		e.nlink = 2
	}
	return e
}

// treeProblem tells whether names collide or something is below what is not a directory.
func treeProblem(ents []cent) bool {
	kinds := map[string]uint32{}
	for _, e := range ents {
		n := cleanEntryName(e.name)
		if _, ok := kinds[n]; ok {
			return true
		}
		kinds[n] = e.mode &^ 07777
	}
	for n := range kinds {
		for p := path.Dir(n); p != "." && p != "/"; p = path.Dir(p) {
			if k, ok := kinds[p]; ok && k != mDIR {
				return true
			}
		}
	}
	return false
}

// shortReads is a stream of a package or archive whose pieces are all given.
func cutAt(b []byte, cuts ...int) *chunkReader {
	return &chunkReader{data: b, failAt: -1, size: func(pos, n int) int {
		for _, c := range cuts {
			if c > pos && c-pos < n {
				n = c - pos
			}
		}
		return n
	}}
}

func init() {
	register(&Prop{
		ID: "C15",
		Assumptions: []string{"the destination is empty or does not exist; names are distinct after cleaning and nothing is below a name that is not a directory",
			"permissions of regular files, owners and times are not claimed (the code says so)", "run as an unprivileged user on tmpfs"},
		Parts: func(tier string) []*Part {
			thorough := tier == "thorough"
			trees := func(name string, n, names, kinds int, umask uint32, ways, chunks int) *Part {
				return &Part{
					Name: name, Scratch: true,
					Desc:  fmt.Sprintf("every archive of %d entries with distinct names from %d and %d kinds (directories, files, symlinks, FIFOs, devices), umask %03o, %d ways of extracting, %d chunkings", n, names, kinds, umask, ways, chunks),
					Setup: func(*Env) error { syscall.Umask(int(umask)); return nil },
					Run: func(x *X) {
						var ents []cent
						for i := 0; i < n; i++ {
							ents = append(ents, c15entry(x.Choose(kinds), x.Choose(names), i))
						}
						if treeProblem(ents) {
							return
						}
						way, ch := x.Choose(ways), x.Choose(chunks)
						dest := x.fresh("dst")
						x.Logf("%s", c14describe(ents, ""))
						x.State(x.prefix())
						x.Step()
						err := c15extract(way, ch, archive(ents...), dest)
						c15judge(x, ents, umask, err, dest, c15ways[way])
					},
				}
			}
			hard := func(name string, n int, big bool) *Part {
				return &Part{
					Name: name, Scratch: true,
					Desc:  fmt.Sprintf("every archive of up to %d entries, each of: 4 hard-link groups (same inode on another device, inode 0), with or without content, or an ordinary file or directory; link counts exact or one too many", n),
					Setup: func(*Env) error { syscall.Umask(022); return nil },
					Run: func(x *X) {
						m := x.Choose(n) + 1
						groups := []struct{ ino, maj, min uint32 }{{7, 8, 1}, {7, 8, 2}, {0, 0, 0}, {7, 9, 1}}
						names := []string{"f0", "d/f1", "d/f2", "f3", "e/f4", "f5"}
						var ents []cent
						count := map[int]uint32{}
						var which []int
						for i := 0; i < m; i++ {
							c := x.Choose(map[bool]int{false: 8, true: 10}[big])
							e := cent{name: names[i], mode: mREG | 0644, nlink: 1, ino: 50 + uint32(i)}
							g := -1
							switch {
							case c < 6 || c >= 8:
								g = c / 2
								if c >= 8 {
									g = 3
								}
								e.ino, e.devmajor, e.devminor = groups[g].ino, groups[g].maj, groups[g].min
								if c%2 == 1 {
									e.data = fileData(i+3, 4+i)
								}
								count[g]++
							case c == 6:
								e.data = fileData(i+3, 3)
							case c == 7:
								e = cent{name: []string{"g", "d", "e", "h", "i", "j"}[i], mode: mDIR | 0755, nlink: 2, ino: 7}
							}
							ents = append(ents, e)
							which = append(which, g)
						}
						extra := uint32(x.Choose(2))
						for i, g := range which {
							if g >= 0 {
								ents[i].nlink = count[g] + extra
							}
						}
						dest := x.fresh("dst")
						x.Logf("%s", c14describe(ents, ""))
						x.State(x.prefix())
						x.Step()
						err := c15extract(0, 0, archive(ents...), dest)
						want, _ := buildTree(ents, 022)
						_ = want
						c15judge(x, ents, 022, err, dest, "Extract")
					},
				}
			}
			sample := func() []cent {
				return []cent{
					{name: ".", mode: mDIR | 0755, nlink: 2},
					{name: "./d", mode: mDIR | 0750, nlink: 2},
					{name: "./d/f", mode: mREG | 0644, nlink: 1, data: []byte("content of f")},
					{name: "./l", mode: mLNK | 0777, nlink: 1, data: []byte("d/f")},
					{name: "./h1", mode: mREG | 0644, nlink: 2, ino: 77},
					{name: "./d/h2", mode: mREG | 0644, nlink: 2, ino: 77, data: []byte("linked")},
					{name: "./p", mode: mFIF | 0600, nlink: 1},
					{name: "./c", mode: mCHR | 0600, nlink: 1, rdevmajor: 1, rdevminor: 3},
					{name: "./e1", mode: mREG | 0644, nlink: 2, ino: 78},
					{name: "./e2", mode: mREG | 0644, nlink: 2, ino: 78},
				}
			}
			kinds := len(c15kinds)
			// spelt gives the name of the odd-names parts
			spelt := func(x *X) (string, bool) {
				if k := x.Choose(len(oddNames) + 3); k < len(oddNames) {
					return oddNames[k], true
				} else {
					return []string{"./TRAILER!!!", "d/TRAILER!!!", "/TRAILER!!!"}[k-len(oddNames)], true
				}
			}
			parts := []*Part{
				{
					Name: "odd-names", Scratch: true,
					Desc:  "every ordered pair of 33 names (blanks, control and non-ASCII bytes, letter case, dots, the trailer's name), 4 kinds of entry",
					Setup: func(*Env) error { syscall.Umask(022); return nil },
					Run: func(x *X) {
						a, _ := spelt(x)
						b, _ := spelt(x)
						ents := []cent{{name: a, mode: mREG | 0644, nlink: 1, data: []byte("of a")}, {name: b, nlink: 1}}
						switch e := &ents[1]; x.Choose(4) {
						case 0:
							e.mode, e.data = mREG|0644, []byte("of b")
						case 1:
							e.mode, e.nlink = mDIR|0755, 2
						case 2:
							e.mode, e.data = mLNK|0777, []byte(a)
						case 3:
							e.mode = mFIF | 0600
						}
						if treeProblem(ents) {
							return
						}
						dest := x.fresh("dst")
						x.State(x.prefix())
						x.Step()
						err := c15extract(0, 0, archive(ents...), dest)
						c15judge(x, ents, 022, err, dest, "Extract")
					},
				},
				{
					Name: "name-bytes", Scratch: true,
					Desc:  "files and links whose name has every single byte value alone, first, last, and in the middle, and every pair of 16 bytes",
					Setup: func(*Env) error { syscall.Umask(022); return nil },
					Run: func(x *X) {
						var n string
						if k := x.Choose(255 + 256); k < 255 {
							n = []string{"%", "a%", "%a", "a%b", "d/%", "%/f"}[x.Choose(6)]
							n = strings.ReplaceAll(n, "%", string([]byte{byte(k + 1)}))
						} else {
							bs := "a.~ \t\n\\:;*?\"'$\x80\xff"
							n = string([]byte{bs[(k-255)/16], bs[(k-255)%16]})
						}
						if c := cleanEntryName(n); c == "" || strings.HasPrefix(n, "../") || n == ".." {
							return
						}
						ents := []cent{{name: n, mode: mREG | 0644, nlink: 1, data: []byte("of a")}}
						if x.Bool() {
							ents[0].mode = mLNK | 0777
						}
						dest := x.fresh("dst")
						x.State(x.prefix())
						x.Step()
						err := c15extract(0, 0, archive(ents...), dest)
						c15judge(x, ents, 022, err, dest, "Extract")
					},
				},
				{
					Name: "inode-pairs", Scratch: true,
					Desc:  "2 hard-link groups of 2 members, interleaved, with every pair of (major, minor, inode) from 5 x 5 x 5 values (0, 1, 8, 16 and 32 bits)",
					Setup: func(*Env) error { syscall.Umask(022); return nil },
					Run: func(x *X) {
						vals := []uint32{0, 1, 0x100, 0x10000, 1<<32 - 1}
						n := len(vals)
						a, b := x.Choose(n*n*n), x.Choose(n*n*n)
						if a == b {
							return
						}
						var ents []cent
						for i, k := range []int{a, b, a, b} {
							e := cent{name: fmt.Sprint("f", i), mode: mREG | 0644, nlink: 2, devmajor: vals[k/n/n], devminor: vals[k/n%n], ino: vals[k%n]}
							if i > 1 {
								e.data = fileData(i, i)
							}
							ents = append(ents, e)
						}
						dest := x.fresh("dst")
						x.State(x.prefix())
						x.Step()
						err := c15extract(0, 0, archive(ents...), dest)
						c15judge(x, ents, 022, err, dest, "Extract")
					},
				},
				{
					Name: "inode-bits", Scratch: true,
					Desc:  "2 hard-link groups of 2 members, interleaved or in sequence, whose (major, minor, inode) differ in any one of the 96 bits, in the same bit of two fields, or are the same numbers exchanged",
					Setup: func(*Env) error { syscall.Umask(022); return nil },
					Run: func(x *X) {
						base := [3]uint32{0x00800141, 0x50002001, 0x0a000283}
						alt := base
						if k := x.Choose(96 + 96 + 5); k < 96 {
							alt[k/32] ^= 1 << (k % 32)
						} else if k < 192 {
							k -= 96
							alt[k/32] ^= 1 << (k % 32)
							alt[(k/32+1)%3] ^= 1 << (k % 32)
						} else {
							p := [][3]int{{0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}[k-192]
							for i := range p {
								alt[i] = base[p[i]]
							}
						}
						ks := []int{0, 1, 0, 1}
						if x.Bool() {
							ks = []int{0, 1, 1, 0}
						}
						var ents []cent
						for i, k := range ks {
							v := [2][3]uint32{base, alt}[k]
							e := cent{name: fmt.Sprint("f", i), mode: mREG | 0644, nlink: 2, devmajor: v[0], devminor: v[1], ino: v[2]}
							if i > 1 {
								e.data = fileData(i, i)
							}
							ents = append(ents, e)
						}
						dest := x.fresh("dst")
						x.State(x.prefix())
						x.Step()
						err := c15extract(0, 0, archive(ents...), dest)
						c15judge(x, ents, 022, err, dest, "Extract")
					},
				},
				trees("one-entry", 1, len(c15names), kinds, 022, 3, nChunkModes),
				trees("two-entries", 2, len(c15names), map[bool]int{false: 12, true: kinds}[thorough], 022, map[bool]int{false: 1, true: 2}[thorough], 1),
				trees("three-entries", 3, map[bool]int{false: 6, true: 8}[thorough], map[bool]int{false: 7, true: 11}[thorough], 022, 1, 1),
				trees("umask-077", 2, 8, 11, 077, 1, 1),
				trees("umask-000", 2, 8, 11, 0, 1, 1),
				hard("hard-links", map[bool]int{false: 4, true: 5}[thorough], thorough),
				{
					Name: "group-sizes", Scratch: true,
					Desc:  "hard-link groups of 2 to 12 members, with no content or 1, 4095, 4096, 32768, 65537 bytes in the last member, 3 ways of extracting, 5 chunkings",
					Setup: func(*Env) error { syscall.Umask(022); return nil },
					Run: func(x *X) {
						n := 2 + x.Choose(11)
						size := []int{0, 1, 4095, 4096, 32768, 65537}[x.Choose(6)]
						way, ch := x.Choose(3), x.Choose(nChunkModes)
						var ents []cent
						for i := 0; i < n; i++ {
							e := cent{name: fmt.Sprintf("d%d/f%d", i%3, i), mode: mREG | 0644, nlink: uint32(n), ino: 5, devmajor: 8}
							if i == n-1 {
								e.data = fileData(9, size)
							}
							ents = append(ents, e)
						}
						dest := x.fresh("dst")
						x.State(x.prefix())
						x.Step()
						err := c15extract(way, ch, archive(ents...), dest)
						c15judge(x, ents, 022, err, dest, c15ways[way])
					},
				},
				{
					Name: "large-groups", Scratch: true,
					Desc:  "hard-link groups of each size from 13 to 80, 127 to 129, 255 to 257 and 1000 members, with or without content, 3 ways of extracting",
					Setup: func(*Env) error { syscall.Umask(022); return nil },
					Run: func(x *X) {
						more := []int{127, 128, 129, 255, 256, 257, 1000}
						n := 13 + x.Choose(68+len(more))
						if n > 80 {
							n = more[n-81]
						}
						size, way := 7*x.Choose(2), x.Choose(3)
						var ents []cent
						for i := 0; i < n; i++ {
							e := cent{name: fmt.Sprintf("d%d/f%d", i%3, i), mode: mREG | 0644, nlink: uint32(n), ino: 5, devmajor: 8}
							if i == n-1 {
								e.data = fileData(9, size)
							}
							ents = append(ents, e)
						}
						dest := x.fresh("dst")
						x.State(x.prefix())
						x.Step()
						err := c15extract(way, 0, archive(ents...), dest)
						c15judge(x, ents, 022, err, dest, c15ways[way])
					},
				},
				{
					Name: "deep", Scratch: true,
					Desc:  "a file, directory, symbolic link, FIFO, group of two hard links below 1 to 700 directories with names of 1, 2, 20, 200 or 255 bytes (paths up to 3800 bytes), the directories listed or not",
					Setup: func(*Env) error { syscall.Umask(022); return nil },
					Run: func(x *X) {
						comp := []int{1, 2, 20, 200, 255}[x.Choose(5)]
						depths := []int{1, 2, 3, 7, 14, 15, 16, 17, 31, 32, 33, 39, 40, 41, 63, 64, 65, 80, 99, 100, 101, 127, 128, 129, 180, 255, 256, 257, 400, 512, 700}
						depth := depths[x.Choose(len(depths))]
						kind, listed := x.Choose(5), x.Bool()
						if depth*(comp+1) > 3800 || listed && depth > 300 {
							return
						}
						var ents []cent
						dir := ""
						for i := range depth {
							dir += strings.Repeat(string(rune('a'+i%26)), comp)
							if listed {
								ents = append(ents, cent{name: dir, mode: mDIR | 0755, nlink: 2, ino: uint32(1000 + i)})
							}
							dir += "/"
						}
						e := cent{name: dir + "x", mode: mREG | 0644, nlink: 1, ino: 3, data: fileData(3, 9)}
						switch kind {
						case 1:
							e.mode, e.data = mDIR|0755, nil
						case 2:
							e.mode, e.data = mLNK|0777, []byte("to")
						case 3:
							e.mode, e.data = mFIF|0600, nil
						case 4:
							e.nlink = 2
							f := e
							f.name, f.data = dir+"w", nil
							ents = append(ents, f)
						}
						ents = append(ents, e)
						dest := x.fresh("dst")
						x.State(x.prefix())
						x.Step()
						err := c15extract(0, 0, archive(ents...), dest)
						c15judge(x, ents, 022, err, dest, fmt.Sprintf("Extract, %d levels of %d bytes", depth, comp))
					},
				},
				{
					Name: "few-descriptors", Scratch: true, Workers: 1,
					Desc:  "300 files, directories with a file each, groups of 3 hard links with and without content, symbolic links or FIFOs, or some of each, in a process that can open 24 more files; 3 ways of extracting",
					Setup: func(*Env) error { syscall.Umask(022); return nil },
					Run: func(x *X) {
						kind, way := x.Choose(7), x.Choose(3)
						var ents []cent
						for i := range 300 {
							k := kind
							if kind == 6 {
								k = i / 3 % 6
							}
							name := fmt.Sprintf("n%d", i)
							e := cent{name: name, mode: mREG | 0644, nlink: 1, ino: uint32(1000 + i), data: fileData(i, 5)}
							switch k {
							case 1:
								if i%2 == 0 {
									e = cent{name: name, mode: mDIR | 0755, nlink: 2, ino: uint32(1000 + i)}
								} else {
									e.name = fmt.Sprintf("n%d/f", i-1)
								}
								if kind == 6 && i%2 == 1 {
									e.name = name
								}
							case 2, 3:
								e.ino, e.nlink = uint32(5000+i/3), 3
								if k == 3 || i%3 < 2 {
									e.data = nil
								}
							case 4:
								e.mode, e.data = mLNK|0777, []byte("to")
							case 5:
								e.mode, e.data = mFIF|0600, nil
							}
							ents = append(ents, e)
						}
						dest := x.fresh("dst")
						x.State(x.prefix())
						x.Step()
						var old syscall.Rlimit
						must(syscall.Getrlimit(syscall.RLIMIT_NOFILE, &old))
						fds, err := os.ReadDir("/proc/self/fd")
						must(err)
						top := 0
						for _, f := range fds {
							n, _ := strconv.Atoi(f.Name())
							top = max(top, n)
						}
						raw := archive(ents...)
						low := old
						low.Cur = uint64(top + 24)
						must(syscall.Setrlimit(syscall.RLIMIT_NOFILE, &low))
						err = func() error {
							defer func() { must(syscall.Setrlimit(syscall.RLIMIT_NOFILE, &old)) }()
							return c15extract(way, 0, raw, dest)
						}()
						c15judge(x, ents, 022, err, dest, c15ways[way])
					},
				},
				{
					Name: "chunkings", Scratch: true,
					Desc:  "an archive of 10 entries of every type, cut into pieces at every pair of positions (thorough: also triples of every 7th), and 2 ways of extracting",
					Setup: func(*Env) error { syscall.Umask(022); return nil },
					Run: func(x *X) {
						ents := sample()
						raw := archive(ents...)
						way := x.Choose(2)
						if way == 1 {
							p := newPkg()
							p.payload = raw
							full := p.build().raw
							a := x.Choose(len(full))
							b := a
							if thorough && a%3 == 0 {
								b = a + 7*x.Choose((len(full)-a)/7+1)
							}
							dest := x.fresh("dst")
							x.State(x.prefix())
							x.Step()
							rpm, err := rpmutils.ReadRpm(cutAt(full, a, b))
							if err == nil {
								err = rpm.ExpandPayload(dest)
							}
							c15judge(x, ents, 022, err, dest, fmt.Sprintf("ExpandPayload cut at %d and %d", a, b))
							return
						}
						step := map[bool]int{false: 9, true: 1}[thorough]
						a := step * x.Choose((len(raw)-1)/step+1)
						b := a + 3*x.Choose((len(raw)-a)/3+1)
						dest := x.fresh("dst")
						x.State(x.prefix())
						x.Step()
						err := cpio.Extract(cutAt(raw, a, b), dest)
						c15judge(x, ents, 022, err, dest, fmt.Sprintf("Extract cut at %d and %d", a, b))
					},
				},
				{
					Name: "file-sizes", Scratch: true,
					Desc:  "a file of every size from 0 to 300 and around 4096, 32768, 65536, between two others, 5 chunkings, 3 ways",
					Setup: func(*Env) error { syscall.Umask(022); return nil },
					Run: func(x *X) {
						n := x.Choose(301 + 21)
						if n > 300 {
							n = []int{4096, 32768, 65536}[(n-301)/7] - 3 + (n-301)%7
						}
						way, ch := x.Choose(3), x.Choose(nChunkModes)
						if n > 300 && ch == 1 {
							ch = 4
						}
						ents := []cent{{name: "a", mode: mREG | 0644, nlink: 1, data: fileData(1, 3)}, {name: "b", mode: mREG | 0644, nlink: 1, data: fileData(2, n)}, {name: "c", mode: mREG | 0644, nlink: 1, data: fileData(3, 7)}}
						dest := x.fresh("dst")
						x.State(x.prefix())
						x.Step()
						err := c15extract(way, ch, archive(ents...), dest)
						c15judge(x, ents, 022, err, dest, c15ways[way])
					},
				},
				{
					Name: "link-targets", Scratch: true,
					Desc:  "symbolic links with targets of 1 to 300, 4000 to 4095 bytes and all single bytes, 5 chunkings",
					Setup: func(*Env) error { syscall.Umask(022); return nil },
					Run: func(x *X) {
						k := x.Choose(3)
						var t string
						switch k {
						case 0:
							t = strings.Repeat("t", 1+x.Choose(300))
						case 1:
							t = strings.Repeat("t/", 3000)[:4000+x.Choose(96)]
						case 2:
							t = string([]byte{byte(1 + x.Choose(255))})
						}
						ch := x.Choose(nChunkModes)
						ents := []cent{{name: "a", mode: mLNK | 0777, nlink: 1, data: []byte(t)}, {name: "c", mode: mREG | 0644, nlink: 1, data: fileData(3, 7)}}
						dest := x.fresh("dst")
						x.State(x.prefix())
						x.Step()
						err := c15extract(0, ch, archive(ents...), dest)
						c15judge(x, ents, 022, err, dest, "Extract")
					},
				},
				{
					Name: "permissions", Scratch: true,
					Desc:  "a directory and a FIFO with each of the 4096 permission values (the directory without and, where the user can write to it, with a file)",
					Setup: func(*Env) error { syscall.Umask(022); return nil },
					Run: func(x *X) {
						perm := uint32(x.Choose(4096))
						ents := []cent{{name: "d", mode: mDIR | perm, nlink: 2}, {name: "p", mode: mFIF | perm&0777, nlink: 1}}
						if x.Bool() {
							if perm&0300 != 0300 {
								return
							}
							ents = append(ents, cent{name: "d/f", mode: mREG | 0644, nlink: 1, data: []byte("x")})
						}
						dest := x.fresh("dst")
						x.State(x.prefix())
						x.Step()
						err := c15extract(0, 0, archive(ents...), dest)
						c15judge(x, ents, 022, err, dest, "Extract")
					},
				},
				{
					Name: "through-links", Scratch: true, Workers: 1,
					Desc:  "entries below a symbolic link to a directory of the archive: in the right place or an error, and the same for 18 spellings of the destination, some not there yet or below a link",
					Setup: func(*Env) error { syscall.Umask(022); return nil },
					Run: func(x *X) {
						target := []string{"usr/bin", "./usr/bin", "usr/../usr/bin", "usr"}[x.Choose(4)]
						last := []string{"bin/f", "./bin/g/h", "/bin/f"}[x.Choose(3)]
						ents := []cent{{name: "usr", mode: mDIR | 0755, nlink: 2}, {name: "usr/bin", mode: mDIR | 0755, nlink: 2}, {name: "bin", mode: mLNK | 0777, nlink: 1, data: []byte(target)}}
						f := cent{name: last, mode: mREG | 0644, nlink: 1, data: []byte("through")}
						raw := archive(append(ents, f)...)
						f.name = path.Clean(target) + strings.TrimPrefix(cleanEntryName(last), "bin")
						ch := x.Choose(nChunkModes)
						dest := x.fresh("dst")
						x.State(x.prefix())
						x.Step()
						simple := c15extract(0, ch, raw, dest)
						if simple == nil {
							c15judge(x, append(ents, f), 022, nil, dest, "Extract")
						}
						root := x.fresh("root")
						must(os.Mkdir(root+"/real", 0755))
						must(os.Symlink("real", root+"/sym"))
						spell := [][2]string{{"real", "real"}, {"real/", "real"}, {"sym", "real"}, {"sym/.", "real"}, {"sym/new", "real/new"}, {"sym/new/er", "real/new/er"}, {"real/../sym/new", "real/new"}, {"new", "new"}, {"new/er/", "new/er"}}
						sp := spell[x.Choose(len(spell))]
						to := root + "/" + sp[0]
						if x.Bool() {
							old, err := os.Getwd()
							must(err)
							must(os.Chdir(root))
							defer os.Chdir(old)
							to = sp[0]
						}
						x.Step()
						err := c15extract(0, ch, raw, to)
						if (err == nil) != (simple == nil) {
							x.Fail("extraction to %q gives %v, to a plain directory %v", sp[0], err, simple)
						}
						if err == nil {
							c15judge(x, append(ents, f), 022, nil, root+"/"+sp[1], "Extract to "+sp[0])
						}
					},
				},
				{
					Name: "destinations", Scratch: true, Workers: 1,
					Desc:  "18 spellings of the destination, existing and not, with archives of every type, an empty one and a single file; relative ones from several directories; 2 ways of extracting",
					Setup: func(*Env) error { syscall.Umask(022); return nil },
					Run: func(x *X) {
						root := x.fresh("root")
						must(os.Mkdir(root+"/sub", 0755))
						must(os.Mkdir(root+"/dst", 0755))
						must(os.Symlink("dst", root+"/sym"))
						old, err := os.Getwd()
						must(err)
						spell := []struct{ cwd, dest string }{
							{"", root + "/dst"}, {"", root + "/dst/"}, {"", root + "/dst/."}, {"", root + "//sub/../dst"}, {"", root + "/sym"}, {"", root + "/sym/"},
							{"", "dst"}, {"", "./dst"}, {"", "dst/"}, {"", "sub/../dst"}, {"", "sym"},
							{"/dst", "."}, {"/dst", "./"}, {"/dst", ""}, {"/sub", "../dst"}, {"/sub", "../dst/."}, {"/dst", "../dst"}, {"/dst", "./."},
						}
						sp := spell[x.Choose(len(spell))]
						state := x.Choose(3) // existing, missing, missing with its parent
						dest, real := sp.dest, root+"/dst"
						if state > 0 {
							if sp.cwd == "/dst" || strings.Contains(sp.dest, "sym") {
								return
							}
							must(os.Remove(root + "/dst"))
							if state == 2 {
								dest = strings.Replace(dest, "dst", "dst/deep/er", 1)
								real += "/deep/er"
							}
						}
						var ents []cent
						switch x.Choose(4) {
						case 0:
							ents = sample()
						case 1:
							ents = sample()[1:]
						case 2:
							ents = []cent{{name: "only", mode: mREG | 0644, nlink: 1, data: []byte("x")}}
						}
						way := x.Choose(2)
						raw := archive(ents...)
						must(os.Chdir(root + sp.cwd))
						defer os.Chdir(old)
						x.Logf("%q in %q, state %d", strings.ReplaceAll(dest, root, "$"), sp.cwd, state)
						x.State(x.prefix())
						x.Step()
						err = c15extract(way, 0, raw, dest)
						c15judge(x, ents, 022, err, real, fmt.Sprintf("%s to %q in %q (%d)", c15ways[way], strings.ReplaceAll(dest, root, "$"), sp.cwd, state))
					},
				},
				{
					Name: "root", Scratch: true, Workers: 1,
					Desc:  "extraction to / of entries that are named by the path of a scratch directory",
					Setup: func(*Env) error { syscall.Umask(022); return nil },
					Run: func(x *X) {
						if os.Getuid() == 0 {
							return
						}
						d := x.fresh("dst")
						ents := sample()[1:]
						for i := range ents {
							ents[i].name = strings.TrimPrefix(d+"/"+ents[i].name, map[bool]string{true: "/", false: ""}[x.Choose(2) == 1])
						}
						dest := []string{"/", "//", "/.."}[x.Choose(3)]
						x.State(x.prefix())
						x.Step()
						err := c15extract(0, 0, archive(ents...), dest)
						for i := range ents {
							ents[i].name = strings.TrimPrefix(strings.TrimPrefix(ents[i].name, "/"), d[1:])
						}
						c15judge(x, ents, 022, err, d, "Extract to "+dest)
					},
				},
			}
			return parts
		},
	})
}

var _ io.Reader
