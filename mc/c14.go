package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	rpmutils "github.com/sassoftware/go-rpmutils"
	"github.com/sassoftware/go-rpmutils/cpio"
)

// c14world is a destination directory three levels below a directory with
// other things in it.
type c14world struct {
	top, dest string
	before    map[string]node
}

// outside is the snapshot of everything but the content of the destination.
func (w *c14world) outside() map[string]node {
	s := snapshot(w.top)
	rel := strings.TrimPrefix(w.dest, w.top+"/")
	for k := range s {
		if strings.HasPrefix(k, rel+"/") {
			delete(s, k)
		}
	}
	if n, ok := s[rel]; ok { // the destination itself may change
		n.mtime, n.nlink, n.perm = 0, 0, 0
		s[rel] = n
	}
	return s
}

func must(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

// c14get prepares the world; it is reused while nothing outside has changed.
func c14get(x *X) *c14world {
	if v, ok := x.w.mem["c14"]; ok && v != nil {
		w := v.(*c14world)
		ents, err := os.ReadDir(w.dest)
		must(err)
		os.Chmod(w.dest, 0755)
		for _, e := range ents {
			p := w.dest + "/" + e.Name()
			if e.IsDir() {
				rmTree(p)
			} else {
				must(os.Remove(p))
			}
		}
		return w
	}
	top := x.fresh("top")
	w := &c14world{top: top, dest: top + "/l1/l2/dest"}
	must(os.MkdirAll(w.dest, 0755))
	must(os.Mkdir(top+"/od", 0755))
	must(os.Mkdir(top+"/od/sub", 0755))
	must(os.WriteFile(top+"/od/victim", []byte("victim"), 0644))
	must(os.WriteFile(top+"/secret", []byte("secret"), 0644))
	must(os.WriteFile(top+"/l1/l2/secret", []byte("near"), 0644))
	must(os.WriteFile(top+"/l1/l2/destx", []byte("sibling"), 0644))
	must(os.Mkdir(top+"/l1/l2/dest-2", 0755))
	must(os.Symlink("l1/l2/dest", top+"/ld"))
	// permissions that no entry has
	for i, p := range []string{"/od", "/od/sub", "/l1", "/l1/l2", "/l1/l2/dest-2"} {
		must(os.Chmod(top+p, os.FileMode(0710+i)))
	}
	for i, p := range []string{"/od/victim", "/secret", "/l1/l2/secret", "/l1/l2/destx"} {
		must(os.Chmod(top+p, os.FileMode(0600+i)))
	}
	w.before = w.outside()
	x.w.mem["c14"] = w
	return w
}

// c14names: each is tried as the name of every entry. $ stands for the top
// directory, so that absolute names never mean anything but scratch files.
var c14names = []string{
	"a", "a/b", "b", "a/b/c", "..", "../secret", "../../../secret", "$/secret",
	"../../../od/new", "a/../../secret", "a/../b", ".", "", "../dest-2/x", "b/victim", "$/od/victim",
	"../destx", "/../../../secret", "./../../secret", "a//..//../..//secret", "a/", "b/sub/new", "../../../../../..$/secret", "a\x00/../../secret", "...", "..a/x", "a/..", "../..", "b/../secret",
}

// c14kinds: how an entry may look apart from its name.
var c14kinds = []struct {
	mode   uint32
	nlink  uint32
	ino    uint32
	data   string
	label  string
	target bool
}{
	{mREG | 0644, 1, 1, "data", "file", false},
	{mDIR | 0755, 2, 2, "", "dir", false},
	{mLNK | 0777, 1, 3, "../../../secret", "link", true},
	{mLNK | 0777, 1, 3, "../../../od", "link", true},
	{mREG | 0644, 2, 9, "", "hard link", false},
	{mREG | 0644, 2, 9, "linked", "hard link with data", false},
	{mLNK | 0777, 1, 3, "$/od", "link", true},
	{mLNK | 0777, 1, 3, "b", "link", true},
	{mLNK | 0777, 1, 3, "../../../od/new", "link", true},
	{mLNK | 0777, 1, 3, "a/..", "link", true},
	{mFIF | 0644, 1, 4, "", "fifo", false},
	{mLNK | 0777, 1, 3, "..", "link", true},
	{mLNK | 0777, 1, 3, ".", "link", true},
	{mREG | 0644, 1, 1, "", "empty file", false},
	{mLNK | 0777, 1, 3, "$/secret", "link", true},
	{mLNK | 0777, 1, 3, "a", "link", true},
	{mCHR | 0644, 1, 5, "", "device", false},
	{mLNK | 0777, 1, 3, "../dest-2", "link", true},
	{mLNK | 0777, 1, 3, "../../../ld/../dest-2", "link", true},
	{mDIR | 0000, 2, 2, "", "closed dir", false},
	{mLNK | 0777, 1, 3, "../dest/b", "link", true},
	{mLNK | 0777, 1, 3, "b/sub", "link", true},
}

func c14entry(x *X, w *c14world, names, kinds []int) cent {
	name := strings.ReplaceAll(c14names[names[x.Choose(len(names))]], "$", w.top)
	k := c14kinds[kinds[x.Choose(len(kinds))]]
	e := cent{name: name, mode: k.mode, nlink: k.nlink, ino: k.ino, data: []byte(strings.ReplaceAll(k.data, "$", w.top))}
	x.Logf("%s %q %s", k.label, strings.ReplaceAll(name, w.top, "$"), k.data)
	return e
}

func c14describe(ents []cent, top string) string {
	var s []string
	for _, e := range ents {
		s = append(s, fmt.Sprintf("%o %q %q nlink %d", e.mode, strings.ReplaceAll(e.name, top, "$"), strings.ReplaceAll(string(e.data), top, "$"), e.nlink))
	}
	return strings.Join(s, "; ")
}

func (w *c14world) judge(x *X, what string) {
	if d := diffSnap(w.before, w.outside(), true); d != "" {
		x.w.mem["c14"] = nil
		x.Fail("%s: outside the destination, %s", what, d)
	}
	x.Validated()
}

func c14range(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

func expandRaw(payload []byte, dest string) error {
	p := newPkg()
	p.payload = payload
	rpm, err := rpmutils.ReadRpm(bytes.NewReader(p.build().raw))
	if err != nil {
		panic("harness: " + err.Error())
	}
	return rpm.ExpandPayload(dest)
}

func init() {
	register(&Prop{
		ID: "C14",
		Assumptions: []string{"nothing else changes the destination during the extraction (destinations that hold hard links to files outside are explored under C21)",
			"changes are observed as differences in names, contents, targets, permissions, inode numbers, link counts and modification times of everything below the destination's great-grandparent, as an unprivileged user"},
		Parts: func(tier string) []*Part {
			thorough := tier == "thorough"
			sequences := func(name string, n int, names, kinds []int, dests int, expand bool) *Part {
				return &Part{
					Name: name, Scratch: true,
					Desc: fmt.Sprintf("every archive of %d entries, each with one of %d names and %d kinds, extracted (ExpandPayload: %v) to a directory in %d spellings", n, len(names), len(kinds), expand, dests),
					Run: func(x *X) {
						w := c14get(x)
						var ents []cent
						for i := 0; i < n; i++ {
							ents = append(ents, c14entry(x, w, names, kinds))
						}
						dest := []string{w.dest, w.top + "/ld", w.dest + "/", w.top + "/od/../l1/l2/dest/."}[x.Choose(dests)]
						x.State(x.prefix())
						x.Step()
						var err error
						if expand && x.Bool() {
							err = expandRaw(archive(ents...), dest)
						} else {
							err = cpio.Extract(bytes.NewReader(archive(ents...)), dest)
						}
						x.Outcome(fmt.Sprint(err))
						w.judge(x, fmt.Sprintf("extracting [%s] (error %v)", c14describe(ents, w.top), err))
					},
				}
			}
			triNames, triKinds := []int{0, 1, 2, 3, 6, 8, 11, 14}, []int{0, 1, 2, 3, 4, 5, 7, 9, 8}
			quadNames, quadKinds := []int{0, 1, 2}, []int{0, 3, 4, 5, 7, 9}
			if thorough {
				triNames, triKinds = c14range(15), c14range(12)[:10]
				quadNames, quadKinds = []int{0, 1, 2, 3, 28}, []int{0, 1, 3, 4, 5, 7, 9}
			}
			parts := []*Part{
				sequences("one", 1, c14range(len(c14names)), c14range(len(c14kinds)), 4, true),
				sequences("two", 2, c14range(len(c14names)), map[bool][]int{false: {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 17}, true: c14range(len(c14kinds))}[thorough], 1, false),
				sequences("three", 3, triNames, triKinds, 1, false),
				sequences("four", 4, quadNames, quadKinds, 1, false),
			}
			parts = append(parts, &Part{
				Name: "deep", Scratch: true,
				Desc: "a symlink (to 7 places outside and inside) below 0 to 7 directories that are given or implied, under a path of 1 or 2 such links, then 1 or 2 entries of 7 kinds at it or up to 3 levels below it",
				Run: func(x *X) {
					w := c14get(x)
					depth := x.Choose(8)
					dir := strings.Repeat("p/", depth)
					up := strings.Repeat("../", depth)
					target := []string{up + "../../../od", w.top + "/od", up + "../dest-2", up + "../../../secret", up + "..", up + "../../../l1/l2/dest-2/../../../od", up + "b"}[x.Choose(7)]
					var ents []cent
					if x.Bool() {
						for i := 1; i <= depth; i++ {
							ents = append(ents, cent{name: strings.Repeat("p/", i), mode: mDIR | 0755, nlink: 2, ino: 2})
						}
					}
					link := cent{name: dir + "a", mode: mLNK | 0777, nlink: 1, ino: 3, data: []byte(target)}
					ents = append(ents, link)
					if x.Bool() { // by way of another link
						ents = append(ents, cent{name: dir + "z", mode: mLNK | 0777, nlink: 1, ino: 4, data: []byte("a")})
						link.name = dir + "z"
					}
					below := []string{"", "/new", "/victim", "/sub/new", "/sub/new/er", "/secret"}
					kinds := []int{0, 1, 2, 4, 5, 10, 13}
					add := func() {
						k := c14kinds[kinds[x.Choose(len(kinds))]]
						ents = append(ents, cent{name: link.name + below[x.Choose(len(below))], mode: k.mode, nlink: k.nlink, ino: k.ino, data: []byte(k.data)})
					}
					add()
					if depth == 5 && x.Bool() {
						add()
					}
					x.State(x.prefix())
					x.Step()
					err := cpio.Extract(bytes.NewReader(archive(ents...)), w.dest)
					x.Outcome(fmt.Sprint(err))
					w.judge(x, fmt.Sprintf("extracting [%s] (error %v)", c14describe(ents, w.top), err))
				},
			}, &Part{
				Name: "very-deep", Scratch: true,
				Desc: "a symlink (to 3 places outside) below 8 to 300 directories, then an entry of 7 kinds below it, or a symlink at the top and 8 to 300 directories below it (the first few or none of which exist outside)",
				Run: func(x *X) {
					w := c14get(x)
					depths := []int{8, 9, 10, 11, 12, 15, 16, 17, 20, 31, 32, 33, 39, 40, 41, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300}
					depth := depths[x.Choose(len(depths))]
					above := x.Bool() // the directories are above the link
					dir := strings.Repeat("p/", depth)
					up, down := strings.Repeat("../", depth), "/new"
					if !above {
						up, down, dir = "", "/sub/"+dir+"new", ""
					}
					target := []string{up + "../../../od", w.top + "/od", up + "../dest-2"}[x.Choose(3)]
					ents := []cent{{name: dir + "a", mode: mLNK | 0777, nlink: 1, ino: 3, data: []byte(target)}}
					k := c14kinds[[]int{0, 1, 2, 4, 5, 10, 13}[x.Choose(7)]]
					ents = append(ents, cent{name: dir + "a" + down, mode: k.mode, nlink: k.nlink, ino: k.ino, data: []byte(k.data)})
					x.State(x.prefix())
					x.Step()
					err := cpio.Extract(bytes.NewReader(archive(ents...)), w.dest)
					x.Outcome(fmt.Sprint(err))
					w.judge(x, fmt.Sprintf("extracting [%s] (error %v)", c14describe(ents, w.top), err))
				},
			}, &Part{
				Name: "again", Scratch: true,
				Desc: "two archives of 1 and 1 (thorough: 2 and 1) entries extracted one after the other to the same directory, or into one that already holds links made by hand",
				Run: func(x *X) {
					w := c14get(x)
					n, k := []int{0, 1, 2, 6, 14}, []int{0, 1, 2, 3, 4, 5, 7, 8}
					var first []cent
					for i := 0; i < map[bool]int{false: 1, true: 2}[thorough]; i++ {
						first = append(first, c14entry(x, w, n, k))
					}
					second := []cent{c14entry(x, w, c14range(15), k)}
					if x.Bool() {
						second = append(second, c14entry(x, w, []int{0, 1, 2, 3}, []int{0, 1, 5}))
					}
					if x.Bool() {
						must(os.Symlink("../../../od", w.dest+"/b"))
						must(os.Symlink("../../../secret", w.dest+"/a"))
					}
					x.State(x.prefix())
					x.StepN(2)
					err := cpio.Extract(bytes.NewReader(archive(first...)), w.dest)
					err2 := cpio.Extract(bytes.NewReader(archive(second...)), w.dest)
					x.Outcome(fmt.Sprint(err, err2))
					w.judge(x, fmt.Sprintf("extracting [%s] (error %v), then [%s] (error %v)", c14describe(first, w.top), err, c14describe(second, w.top), err2))
				},
			}, &Part{
				Name: "cut", Scratch: true,
				Desc: "3 hostile archives of 3 entries cut at every byte",
				Run: func(x *X) {
					w := c14get(x)
					ents := [][]cent{
						{{name: "b", mode: mLNK | 0777, nlink: 1, data: []byte("../../../od")}, {name: "b/new", mode: mREG | 0644, nlink: 1, data: []byte("evil")}, {name: "b/victim", mode: mREG | 0644, nlink: 1, data: []byte("evil")}},
						{{name: "a", mode: mLNK | 0777, nlink: 1, data: []byte("../../../secret")}, {name: "a", mode: mREG | 0644, nlink: 2, ino: 9}, {name: "c", mode: mREG | 0644, nlink: 2, ino: 9, data: []byte("evil")}},
						{{name: "../secret", mode: mREG | 0644, nlink: 1, data: []byte("evil")}, {name: "a", mode: mLNK | 0777, nlink: 1, data: []byte("../../../od/new")}, {name: "a", mode: mREG | 0644, nlink: 2, ino: 9}},
					}[x.Choose(3)]
					b := archive(ents...)
					cut := x.Choose(len(b) + 1)
					x.State(x.prefix())
					x.Step()
					err := cpio.Extract(bytes.NewReader(b[:cut]), w.dest)
					x.Outcome(fmt.Sprint(err))
					w.judge(x, fmt.Sprintf("extracting [%s] cut at %d (error %v)", c14describe(ents, w.top), cut, err))
				},
			}, &Part{
				Name: "relative", Scratch: true, Workers: 1,
				Desc: "every archive of 2 entries from 9 names and 7 kinds extracted to the current directory, a relative directory and the parent directory",
				Run: func(x *X) {
					w := c14get(x)
					old, err := os.Getwd()
					must(err)
					n, k := []int{0, 1, 2, 4, 5, 6, 11, 14, 8}, []int{0, 1, 2, 3, 5, 7, 8}
					ents := []cent{c14entry(x, w, n, k), c14entry(x, w, n, k)}
					c := x.Choose(5)
					cwd := []string{w.dest, w.dest, w.dest + "/..", w.top, w.top + "/l1/l2/dest-2"}[c]
					dest := []string{".", "", "dest", "l1/l2/dest/", "../dest"}[c]
					must(os.Chdir(cwd))
					defer os.Chdir(old)
					x.State(x.prefix())
					x.Step()
					err = cpio.Extract(bytes.NewReader(archive(ents...)), dest)
					x.Outcome(fmt.Sprint(err))
					w.judge(x, fmt.Sprintf("extracting [%s] to %q (error %v)", c14describe(ents, w.top), dest, err))
				},
			}, &Part{
				Name: "new-destination", Scratch: true,
				Desc: "every archive of 2 entries from 11 names and 9 kinds extracted to a directory that does not exist yet",
				Run: func(x *X) {
					w := c14get(x)
					n, k := []int{0, 1, 2, 4, 5, 6, 8, 11, 12, 14, 27}, []int{0, 1, 2, 3, 4, 5, 7, 8, 10}
					ents := []cent{c14entry(x, w, n, k), c14entry(x, w, n, k)}
					must(syscall.Rmdir(w.dest))
					defer func() {
						if _, err := os.Lstat(w.dest); err != nil {
							must(os.MkdirAll(w.dest, 0755))
						}
						// the parent's time and the directory itself have changed
						w.before = w.outside()
					}()
					x.State(x.prefix())
					x.Step()
					err := cpio.Extract(bytes.NewReader(archive(ents...)), w.dest)
					x.Outcome(fmt.Sprint(err))
					s := w.outside()
					if _, err := os.Lstat(w.dest); err != nil {
						s["l1/l2/dest"] = w.before["l1/l2/dest"]
					}
					for _, k := range []string{"l1/l2", "l1/l2/dest"} {
						n := s[k]
						n.mtime, n.nlink, n.ino = w.before[k].mtime, w.before[k].nlink, w.before[k].ino
						s[k] = n
					}
					if d := diffSnap(w.before, s, true); d != "" {
						x.w.mem["c14"] = nil
						x.Fail("extracting [%s] (error %v): outside the destination, %s", c14describe(ents, w.top), err, d)
					}
					x.Validated()
				},
			})
			return parts
		},
	})
}

var _ = filepath.Join
