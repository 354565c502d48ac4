package main

import (
	"fmt"
	"os"
	"strings"
	"syscall"
)

type c16scenario struct {
	name   string
	ents   []cent
	expand string // compressor of a package, or "" for Extract
	noDest bool
	prior  bool // something is in the destination already
}

func c16scenarios(thorough bool) (out []c16scenario) {
	reg := func(name string, n int) cent {
		return cent{name: name, mode: mREG | 0644, nlink: 1, data: fileData(len(name), n)}
	}
	dir := func(name string) cent { return cent{name: name, mode: mDIR | 0755, nlink: 2} }
	lnk := func(name, to string) cent {
		return cent{name: name, mode: mLNK | 0777, nlink: 1, data: []byte(to)}
	}
	hl := func(name string, n, size int) cent {
		return cent{name: name, mode: mREG | 0644, nlink: uint32(n), ino: 9, data: fileData(4, size)}
	}
	fifo := cent{name: "p", mode: mFIF | 0640, nlink: 1}
	archives := []c16scenario{
		{name: "file", ents: []cent{reg("f", 10)}},
		{name: "empty file", ents: []cent{reg("f", 0)}},
		{name: "large file", ents: []cent{reg("f", 100000), reg("g", 3)}},
		{name: "directories", ents: []cent{dir("d"), dir("d/e"), reg("d/e/f", 5)}},
		{name: "implicit directories", ents: []cent{reg("a/b/c", 5), reg("a/d", 6)}},
		{name: "symlink", ents: []cent{lnk("l", "target"), reg("f", 1)}},
		{name: "fifo", ents: []cent{fifo, reg("f", 1)}},
		{name: "hard links", ents: []cent{hl("h1", 3, 0), hl("d/h2", 3, 0), hl("h3", 3, 20)}},
		{name: "empty hard links", ents: []cent{hl("h1", 3, 0), hl("d/h2", 3, 0), hl("h3", 3, 0)}},
		{name: "late hard links", ents: []cent{hl("h1", 3, 0), hl("h2", 3, 9), hl("h3", 3, 0)}},
		{name: "device", ents: []cent{{name: "dev/null", mode: mCHR | 0600, nlink: 1}, reg("f", 2)}},
		{name: "through a link", ents: []cent{dir("d"), lnk("l", "d"), reg("e", 2)}},
		{name: "everything", ents: []cent{dir("."), dir("d"), reg("d/f", 7), lnk("d/l", "f"), fifo, hl("h1", 2, 0), hl("d/h2", 2, 8), reg("z", 1)}},
	}
	for _, a := range archives {
		for _, expand := range []string{"", "none", "gzip"} {
			for _, nd := range []bool{false, true} {
				if nd && expand != "" {
					continue
				}
				if expand == "gzip" && !thorough && a.name != "everything" && a.name != "large file" {
					continue
				}
				s := a
				s.expand, s.noDest = expand, nd
				out = append(out, s)
			}
		}
	}
	for _, a := range []c16scenario{
		{name: "file over symlink", ents: []cent{lnk("a", "../outside/victim"), reg("a", 5)}},
		{name: "hard links over symlink", ents: []cent{lnk("a", "../outside/victim"), hl("a", 2, 0), hl("b", 2, 0)}},
		{name: "content over symlink", ents: []cent{lnk("b", "../outside/victim"), hl("a", 2, 0), hl("b", 2, 7)}},
		{name: "below symlink", ents: []cent{lnk("a", "../outside"), reg("a/victim", 5)}},
		{name: "below two symlinks", ents: []cent{lnk("b", "../outside"), lnk("a", "b"), dir("a/sub"), reg("a/sub/victim", 5)}},
	} {
		a.prior = true // judged only by what is outside
		out = append(out, a)
	}
	return
}

func init() {
	register(&Prop{
		ID:          "C16",
		Assumptions: []string{"injected failures do not contradict the state of the file system (EEXIST is made up only for links and special files, ENOENT never); a failing close still closes", "hostile archives are judged by what they do outside the destination (C14 under failures)"},
		Parts: func(tier string) []*Part {
			thorough := tier == "thorough"
			scen := c16scenarios(thorough)
			part := func(name string, budget, nerr int) *Part {
				return &Part{
					Name: name, Scratch: true, Budget: budget,
					Desc: fmt.Sprintf("%d archives and packages covering every entry type (and 5 hostile ones), extracted in a child process under ptrace with up to %d faults: any system call on the scenario's files (source package, destination) fails with %d errors, is cut short (half, one byte), or reports at close that what was written is lost", len(scen), budget, nerr),
					Run: func(x *X) {
						sc := scen[x.Choose(len(scen))]
						root := x.fresh("ex")
						dest := root + "/dst"
						if !sc.noDest {
							must(os.Mkdir(dest, 0755))
						}
						must(os.Mkdir(root+"/outside", 0755))
						must(os.WriteFile(root+"/outside/victim", []byte("victim"), 0644))
						cmd := childCmd{Op: "extract", In: x.w.dir + "/src", Out: dest, Umask: 022}
						if sc.expand == "" {
							must(os.WriteFile(cmd.In, archive(sc.ents...), 0644))
						} else {
							p := newPkg()
							p.payload = archive(sc.ents...)
							if sc.expand == "gzip" {
								p.payload = gz(p.payload)
								p.gen = append(p.gen, tStr(1125, "gzip"))
							}
							cmd.Op, cmd.In = "expand", root+"/pkg"
							must(os.WriteFile(cmd.In, p.build().raw, 0644))
						}
						outside := func() map[string]node {
							s := snapshot(root)
							for k := range s {
								if k == "." || k == "dst" || strings.HasPrefix(k, "dst/") {
									delete(s, k)
								}
							}
							return s
						}
						before := outside()
						r, killed, done, calls := x.inject(cmd, root, func(s sysc, done []string) []fault {
							alts := c10faults(s, nerr, false, false, before, root)
							switch s.name {
							case "link", "linkat", "symlink", "symlinkat", "mknod", "mknodat":
								// somebody else has made it
								alts = append(alts, fault{errno: syscall.EEXIST})
							}
							return alts
						})
						what := fmt.Sprintf("%s (package: %q, new destination: %v), [%s], result ok=%v err=%q", sc.name, sc.expand, sc.noDest, strings.Join(done, "; "), r.Ok, r.Err)
						x.Logf("%s", what)
						x.State(x.prefix())
						x.Outcome(what)
						if strings.HasPrefix(r.Err, "harness:") {
							panic(r.Err)
						}
						if killed {
							x.Fail("%s: the process died", what)
						}
						if calls == 0 {
							panic("harness: no system call was seen")
						}
						if d := diffSnap(before, outside(), true); d != "" {
							x.Fail("%s: outside the destination, %s", what, d)
						}
						x.Validated()
						if sc.prior {
							return
						}
						if !r.Ok {
							if len(done) == 0 {
								x.Fail("%s: fails without any fault", what)
							}
							return
						}
						want, _ := buildTree(sc.ents, 022)
						if d := compareTree(want, dest); d != "" {
							x.Fail("%s: success is reported but %s", what, d)
						}
					},
				}
			}
			if thorough {
				return []*Part{part("one-fault", 1, 5), part("two-faults", 2, 2)}
			}
			return []*Part{part("one-fault", 1, 3)}
		},
	})
}
