package main

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/sassoftware/go-rpmutils/cpio"
)

// c21world is a destination that holds things already, with others beside it.
type c21world struct {
	top, dest string
	fails     bool // the stream is not complete
}

const c21long = 5000

func c21get(x *X) *c21world {
	top := x.fresh("ov")
	w := &c21world{top: top, dest: top + "/dest"}
	must(os.Mkdir(w.dest, 0755))
	must(os.Mkdir(top+"/out", 0755))
	must(os.Mkdir(top+"/out/sub", 0755))
	must(os.WriteFile(top+"/out/victim", []byte("victim"), 0644))
	must(os.WriteFile(w.dest+"/z", []byte("content of z"), 0644))
	must(os.Mkdir(w.dest+"/e", 0755))
	must(os.WriteFile(w.dest+"/e/k", []byte("content of k"), 0644))
	return w
}

var c21pre = []string{"nothing", "short file", "long file", "hard link to z", "dir", "link to z", "link to e", "dangling link", "fifo", "hard link outside", "full dir", "link to a file outside", "link to a dir outside", "looping link", "read-only file", "socket"}

// put places something at a path below the destination, depth levels down.
func (w *c21world) put(kind, name string) {
	p := w.dest + "/" + name
	up := strings.Repeat("../", strings.Count(name, "/"))
	switch kind {
	case "short file":
		must(os.WriteFile(p, []byte("x"), 0600))
	case "long file":
		must(os.WriteFile(p, fileData(4, c21long), 0644))
	case "hard link to z":
		must(os.Link(w.dest+"/z", p))
	case "dir":
		must(os.Mkdir(p, 0711))
	case "link to z":
		must(os.Symlink(up+"z", p))
	case "link to e":
		must(os.Symlink(up+"e", p))
	case "dangling link":
		must(os.Symlink(up+"not/there", p))
	case "fifo":
		must(syscall.Mkfifo(p, 0600))
	case "hard link outside":
		must(os.Link(w.top+"/out/victim", p))
	case "full dir":
		must(os.Mkdir(p, 0755))
		must(os.WriteFile(p+"/q", []byte("content of q"), 0644))
	case "link to a file outside":
		must(os.Symlink(up+"../out/victim", p))
	case "link to a dir outside":
		must(os.Symlink(up+"../out", p))
	case "looping link":
		must(os.Symlink(path.Base(name), p))
	case "socket":
		must(syscall.Mknod(p, syscall.S_IFSOCK|0600, 0))
	case "read-only file":
		must(os.WriteFile(p, []byte("read me"), 0444))
	}
}

// realName follows the links on the way to an entry; "" where there is no way
// to it inside the destination.
func (w *c21world) realName(name string) string {
	rest := path.Base(name)
	for dir := path.Dir(name); ; dir = path.Dir(dir) {
		p := filepath.Join(w.dest, dir)
		if _, err := os.Lstat(p); err == nil {
			p, err = filepath.EvalSymlinks(p)
			if err != nil {
				return ""
			}
			if st, err := os.Stat(p); err != nil || !st.IsDir() {
				return ""
			}
			rel, err := filepath.Rel(w.top, filepath.Join(p, rest))
			if err != nil || !strings.HasPrefix(rel, "dest/") {
				return ""
			}
			return rel
		}
		rest = path.Base(dir) + "/" + rest
	}
}

// extractOver extracts and judges the result by what was there before.
func (w *c21world) extractOver(x *X, ents []cent, run func() error, what string) error {
	const umask = 022
	before := snapshot(w.top)
	tree, well := buildTree(ents, umask)
	real := map[string]string{}  // entry name -> path from the top
	entry := map[string]cent{}   // path from the top -> entry
	parents := map[string]bool{} // directories that may appear
	mustWork, possible := well && !w.fails, true
	members := map[string]int{}
	for _, e := range ents {
		name := cleanEntryName(e.name)
		if name == "" {
			continue
		}
		r := w.realName(name)
		typ := e.mode &^ 07777
		if r == "" {
			mustWork = false
			if typ != mCHR && typ != mBLK {
				possible = false
			}
			continue
		}
		real[name], entry[r] = r, e
		for p := path.Dir(r); p != "dest" && p != "."; p = path.Dir(p) {
			parents[p] = true
		}
		members[r]++
		old, was := before[r]
		switch {
		case typ == mCHR || typ == mBLK || !was:
		case typ == mDIR && old.kind == "dir":
		case typ == mREG && e.nlink <= 1 && old.kind != "dir" && !(old.kind == "file" && old.perm&0200 == 0):
		default:
			mustWork = false
		}
	}
	for p := range parents {
		if n, ok := before[p]; ok && n.kind != "dir" {
			mustWork = false
		}
	}
	for _, n := range members {
		if n > 1 { // two names that lead to one place
			mustWork = false
		}
	}
	x.Step()
	err := run()
	after := snapshot(w.top)
	x.Outcome(what, fmt.Sprint(err))
	what = fmt.Sprintf("%s, extracting [%s] (error %v)", what, c14describe(ents, w.top), err)
	if err != nil && mustWork {
		x.Fail("%s: it should succeed", what)
	}
	if err == nil && !possible {
		x.Fail("%s: success, although an entry cannot be placed inside the destination", what)
	}
	// what no entry names stays
	for k, n := range before {
		e, named := entry[k]
		if named && e.mode&^07777 != mCHR && e.mode&^07777 != mBLK {
			if n.kind != "dir" || err == nil {
				continue
			}
		}
		g, ok := after[k]
		if !ok {
			x.Fail("%s: %s is gone (%s)", what, k, n)
		}
		if g.kind != n.kind || g.data != n.data || g.perm != n.perm || g.ino != n.ino || n.kind == "file" && g.mtime != n.mtime {
			x.Fail("%s: %s is %s (inode %d), was %s (%d)", what, k, g, g.ino, n, n.ino)
		}
	}
	for k, g := range after {
		_, was := before[k]
		e, named := entry[k]
		if was || named && e.mode&^07777 != mCHR && e.mode&^07777 != mBLK {
			continue
		}
		if parents[k] && g.kind == "dir" {
			continue
		}
		x.Fail("%s: %s is there (%s)", what, k, g)
	}
	if err != nil {
		x.Validated()
		return err
	}
	// the entries are as archived
	for name, r := range real {
		if members[r] > 1 {
			continue
		}
		e := entry[r]
		want, ok := tree[name]
		typ := e.mode &^ 07777
		if typ == mCHR || typ == mBLK || !ok {
			continue
		}
		g, there := after[r]
		if !there {
			x.Fail("%s: %s is missing", what, name)
		}
		old, was := before[r]
		switch typ {
		case mDIR:
			if was && old.kind == "link" {
				if st, err := os.Stat(w.top + "/" + r); err != nil || !st.IsDir() {
					x.Fail("%s: %s is %s, not a directory", what, name, g)
				}
			} else if g.kind != "dir" {
				x.Fail("%s: %s is %s, not a directory", what, name, g)
			} else if g.perm != want.perm && !(was && g.perm == old.perm) {
				x.Fail("%s: directory %s has permissions %o, want %o", what, name, g.perm, want.perm)
			} else if was && g.ino != old.ino && old.kind == "dir" {
				x.Fail("%s: directory %s was replaced", what, name)
			}
		case mREG:
			if g.kind != "file" || g.data != want.data {
				x.Fail("%s: %s is %s, want %s", what, name, g, want)
			}
			links := 1
			if want.group != "" {
				links = 0
				for _, m := range strings.Split(want.group, ",") {
					links++
					if after[real[m]].ino != g.ino {
						x.Fail("%s: %s is not a link of %s", what, m, name)
					}
				}
			}
			if g.nlink != uint64(links) {
				x.Fail("%s: %s has %d links, want %d", what, name, g.nlink, links)
			}
		default:
			if g.kind != want.kind || g.data != want.data || typ == mFIF && g.perm != want.perm {
				x.Fail("%s: %s is %s, want %s", what, name, g, want)
			}
		}
	}
	x.Validated()
	return nil
}

func init() {
	reg := func(name, data string) cent { return cent{name: name, mode: mREG | 0644, nlink: 1, data: []byte(data)} }
	dir := func(name string, perm uint32) cent { return cent{name: name, mode: mDIR | perm, nlink: 2} }
	lnk := func(name, to string) cent { return cent{name: name, mode: mLNK | 0777, nlink: 1, data: []byte(to)} }
	fifo := func(name string) cent { return cent{name: name, mode: mFIF | 0600, nlink: 1} }
	chr := func(name string) cent {
		return cent{name: name, mode: mCHR | 0600, nlink: 1, rdevmajor: 1, rdevminor: 3}
	}
	hard := func(name, data string) cent {
		return cent{name: name, mode: mREG | 0644, nlink: 2, ino: 9, data: []byte(data)}
	}
	umask := func(*Env) error { syscall.Umask(022); return nil }
	register(&Prop{
		ID: "C21",
		Assumptions: []string{"nothing else changes the destination meanwhile; run as an unprivileged user on tmpfs",
			"permissions of regular files, owners and times of what is extracted are not claimed; what is at an entry's own name after a failure is not claimed",
			"two entries whose names lead to the same place through an existing link are only required not to disturb anything else"},
		Parts: func(tier string) []*Part {
			thorough := tier == "thorough"
			nPre := len(c21pre)
			return []*Part{
				{
					Name: "one-place", Scratch: true, Setup: umask,
					Desc: fmt.Sprintf("each of %d things at the place of an entry (files of several lengths and link counts, directories, links to files and directories inside and outside, dangling, looping, FIFOs, sockets), directly in the destination or below a directory, x 16 archives, 3 ways of extracting, 4 chunkings", nPre),
					Run: func(x *X) {
						w := c21get(x)
						k := c21pre[x.Choose(nPre)]
						sub := x.Choose(3)
						name := []string{"a", "d/a", "d/s/a"}[sub]
						if sub > 0 {
							must(os.MkdirAll(w.dest+"/"+path.Dir(name), 0755))
						}
						w.put(k, name)
						ents := [][]cent{
							{reg(name, "new")}, {reg(name, "")}, {reg(name, string(fileData(5, 70000)))}, {dir(name, 0750)}, {dir(name, 0750), reg(name+"/q", "new q")}, {reg(name+"/r", "new r")},
							{lnk(name, "z")}, {lnk(name, "e")}, {fifo(name)}, {chr(name)}, {hard(name, ""), hard("g", "linked")}, {hard("g", ""), hard(name, "linked")}, {hard(name, ""), hard("g", "")}, {hard("g", ""), hard(name, "")},
							{reg("./"+name, "new"), reg("b", "of b")}, {reg("b", "of b"), reg("/"+name, "new"), dir("n", 0700)},
						}[x.Choose(16)]
						way, ch := x.Choose(3), x.Choose(4)
						x.State(x.prefix())
						x.Logf("%s at %s", k, name)
						w.extractOver(x, ents, func() error { return c15extract(way, ch, archive(ents...), w.dest) }, fmt.Sprintf("%s at %s", k, name))
					},
				},
				{
					Name: "two-places", Scratch: true, Setup: umask,
					Desc: fmt.Sprintf("each of %d things at a, each of %d at d, each of %d at d/f, and every archive of entries at a (10 kinds), d (none or a directory) and d/f (8 kinds), hard-link groups among them", nPre, nPre, map[bool]int{false: 6, true: 9}[thorough]),
					Run: func(x *X) {
						ka := c21pre[x.Choose(map[bool]int{false: 10, true: nPre}[thorough])]
						kd := c21pre[x.Choose(nPre)]
						kf := c21pre[0]
						if kd == "dir" || kd == "full dir" {
							kf = c21pre[x.Choose(map[bool]int{false: 6, true: 9}[thorough])]
						}
						a, d, f := x.Choose(10), x.Choose(2), x.Choose(8)
						if a == 0 && d == 0 && f == 0 {
							return
						}
						var ents []cent
						switch a {
						case 1:
							ents = append(ents, reg("a", "new a"))
						case 2:
							ents = append(ents, reg("a", ""))
						case 3:
							ents = append(ents, dir("a", 0750))
						case 4:
							ents = append(ents, lnk("a", "z"))
						case 5:
							ents = append(ents, lnk("a", "e"))
						case 6:
							ents = append(ents, fifo("a"))
						case 7:
							ents = append(ents, chr("a"))
						case 8, 9:
							ents = append(ents, hard("a", ""))
						}
						if d == 1 {
							ents = append(ents, dir("d", 0750))
						}
						switch f {
						case 1:
							ents = append(ents, reg("d/f", "new f"))
						case 2:
							ents = append(ents, reg("d/f", string(fileData(5, 7000))))
						case 3:
							ents = append(ents, dir("d/f", 0700))
						case 4:
							ents = append(ents, lnk("d/f", "../z"))
						case 5:
							ents = append(ents, fifo("d/f"))
						case 6:
							ents = append(ents, hard("d/f", "linked"))
						case 7:
							ents = append(ents, hard("d/f", ""))
						}
						// complete the group
						if (a >= 8) != (f >= 6) {
							if a == 9 || f == 7 {
								ents = append(ents, hard("g", "linked"))
							} else if f == 6 {
								ents = append([]cent{hard("g", "")}, ents...)
							} else {
								ents = append(ents, hard("g", ""))
							}
						} else if a == 9 {
							return
						}
						w := c21get(x)
						w.put(ka, "a")
						w.put(kd, "d")
						if kf != "nothing" {
							w.put(kf, "d/f")
						}
						x.State(x.prefix())
						what := fmt.Sprintf("%s at a, %s at d, %s at d/f", ka, kd, kf)
						x.Logf("%s", what)
						w.extractOver(x, ents, func() error { return cpio.Extract(newChunk(archive(ents...), 0), w.dest) }, what)
					},
				},
				{
					Name: "histories", Scratch: true, Setup: umask,
					Desc: fmt.Sprintf("every sequence of %d extractions out of 14 archives into one destination, each judged by what was there before it", map[bool]int{false: 3, true: 4}[thorough]),
					Run: func(x *X) {
						w := c21get(x)
						archs := [][]cent{
							{reg("a", "first"), dir("d", 0755), reg("d/f", "of f")},
							{reg("a", "the second content"), reg("d/f", "")},
							{reg("b", "x"), dir("b2", 0700)},
							{hard("a", ""), hard("d/f", "group")},
							{hard("h", ""), hard("a", "other group")},
							{hard("a", ""), hard("h", "")},
							{lnk("l", "d"), lnk("d/up", "..")},
							{lnk("a", "d/f")},
							{reg("l/new", "through a link")},
							{reg("d/up/top", "back up")},
							{fifo("p"), reg("e/k", "replaced")},
							{reg("p", "was a fifo")},
							{dir("l", 0755), dir("p", 0755)},
							{reg("l", "was a link"), dir("a", 0755)},
						}
						n := map[bool]int{false: 3, true: 4}[thorough]
						what := ""
						for i := 0; i < n; i++ {
							k := x.Choose(len(archs))
							err := w.extractOver(x, archs[k], func() error { return cpio.Extract(newChunk(archive(archs[k]...), 0), w.dest) }, fmt.Sprintf("after%s", what))
							what += fmt.Sprintf(" %d (%v)", k, err)
						}
						x.State(x.prefix())
					},
				},
				{
					Name: "repeated", Scratch: true, Setup: umask,
					Desc: fmt.Sprintf("every archive of 2 entries of %d names and %d kinds extracted twice, with the same or with other contents", 8, 12),
					Run: func(x *X) {
						w := c21get(x)
						var first, second []cent
						for i := 0; i < 2; i++ {
							k, n := x.Choose(12), x.Choose(8)
							first = append(first, c15entry(k, n, i))
							second = append(second, c15entry(k, n, i))
						}
						if treeProblem(first) {
							return
						}
						switch c := x.Choose(4); c {
						case 1, 2: // shorter, longer
							for i := range second {
								if e := &second[i]; e.mode&^07777 == mREG {
									e.data = fileData(30+i, []int{0, 2, 1 << 15}[c])
								}
							}
						case 3:
							second = []cent{second[1], second[0]}
						}
						if treeProblem(second) {
							return
						}
						x.State(x.prefix())
						w.extractOver(x, first, func() error { return cpio.Extract(newChunk(archive(first...), 0), w.dest) }, "first")
						w.extractOver(x, second, func() error { return cpio.Extract(newChunk(archive(second...), 0), w.dest) }, "then")
					},
				},
				{
					Name: "cut", Scratch: true, Setup: umask,
					Desc: "4 archives cut at every byte, over each of 15 things at the first entry's place: nothing else changes and the failure is reported",
					Run: func(x *X) {
						w := c21get(x)
						k := c21pre[x.Choose(nPre)]
						w.put(k, "a")
						ents := [][]cent{
							{reg("a", "first"), reg("e/n", "second")},
							{hard("a", ""), reg("b", "between"), hard("h", "linked")},
							{hard("a", ""), hard("h", ""), reg("b", "after")},
							{dir("a", 0700), lnk("a2", "z")},
						}[x.Choose(4)]
						b := archive(ents...)
						last := len(b) - len(trailer().bytes())
						cut := x.Choose(last + 1)
						x.State(x.prefix())
						w.fails = true
						err := w.extractOver(x, ents, func() error {
							if err := cpio.Extract(newChunk(b[:cut], 0), w.dest); err != nil {
								return fmt.Errorf("cut: %w", err)
							}
							return fmt.Errorf("harness: success")
						}, fmt.Sprintf("%s at a, cut at %d of %d", k, cut, len(b)))
						if strings.HasPrefix(fmt.Sprint(err), "harness:") {
							x.Fail("%s at a, [%s] cut at %d: success", k, c14describe(ents, ""), cut)
						}
					},
				},
			}
		},
	})
}
