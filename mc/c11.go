package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"strings"
	"syscall"
)

// c11world: a directory with a package and everything that may lead to it.
type c11world struct{ root string }

var c11outs = []string{
	"in", "inlink", "symin", "syminlink", "symsym", "symabs", "./in", "sub/../in", "symdir/../in",
	"other", "otherlink", "symother", "symotherlink", "dangling", "newname", "sub/newname", "missing/new", "loop",
	"fifo", "symfifo", "sub", "symdir", "self", "empty", "insub", "symdir/newname", "readonly", "fdpipe", "twin", "sub/in",
}

var c11ins = []string{"in", "symin", "inlink"}

func (w *c11world) path(name string) string { return w.root + "/" + name }

func c11make(x *X, b []byte, inlinks, otherlinks bool) *c11world {
	w := &c11world{x.fresh("al")}
	must(os.WriteFile(w.path("in"), b, 0640))
	must(os.Mkdir(w.path("sub"), 0755))
	if inlinks {
		must(os.Link(w.path("in"), w.path("inlink")))
		must(os.Link(w.path("in"), w.path("sub/in3")))
	}
	must(os.WriteFile(w.path("other"), bytes.Repeat([]byte("other file "), 900), 0600))
	if otherlinks {
		must(os.Link(w.path("other"), w.path("otherlink")))
	}
	must(os.WriteFile(w.path("empty"), nil, 0644))
	// files that have everything but their content in common with the input
	st, err := os.Stat(w.path("in"))
	must(err)
	for _, n := range []string{"twin", "sub/in"} {
		must(os.WriteFile(w.path(n), bytes.Repeat([]byte{'T'}, len(b)), 0640))
		must(os.Chtimes(w.path(n), st.ModTime(), st.ModTime()))
	}
	must(os.WriteFile(w.path("readonly"), []byte("read me"), 0444))
	for _, l := range [][2]string{{"in", "symin"}, {"inlink", "syminlink"}, {"symin", "symsym"}, {w.path("in"), "symabs"}, {"other", "symother"}, {"otherlink", "symotherlink"},
		{"target-new", "dangling"}, {"loop", "loop"}, {"fifo", "symfifo"}, {"sub", "symdir"}} {
		must(os.Symlink(l[0], w.path(l[1])))
	}
	must(syscall.Mkfifo(w.path("fifo"), 0644))
	return w
}

// resolve follows symbolic links to the name of what is there in the end.
func (w *c11world) resolve(name string) string {
	name = strings.TrimPrefix(name, "./")
	for i := 0; i < 5; i++ {
		switch name {
		case "sub/../in", "symdir/../in":
			return "in"
		case "symdir/newname":
			return "sub/newname"
		}
		t, err := os.Readlink(w.path(name))
		if err != nil {
			return name
		}
		name = strings.TrimPrefix(t, w.root+"/")
	}
	return name
}

// writable tells whether a signature written there has to arrive.
func c11mustWork(out string, inlinks, otherlinks bool) bool {
	switch out {
	case "missing/new", "loop", "sub", "symdir":
		return false
	case "inlink", "otherlink", "insub": // new names where they are not there
		return true
	case "self":
		return false
	case "readonly":
		return true // a new file in a writable directory
	}
	return true
}

func init() {
	register(&Prop{
		ID: "C11",
		Assumptions: []string{"nothing else changes the files meanwhile; permissions, owners and times of the result are not claimed",
			"where the output is a symbolic link to another file, either the link is replaced or that file is written"},
		Parts: func(tier string) []*Part {
			thorough := tier == "thorough"
			// one performs an operation and judges it.
			one := func(x *X, w *c11world, inName, out string, op signOp, b *built, what string) (*built, bool) {
				before := snapshot(w.root)
				in, err := os.Open(w.path(inName))
				if err != nil {
					return nil, false
				}
				defer in.Close()
				var fifo *os.File
				outPath := w.path(out)
				outRes := w.resolve(out)
				switch {
				case outRes == "fifo":
					fd, err := syscall.Open(w.path("fifo"), syscall.O_RDONLY|syscall.O_NONBLOCK, 0)
					must(err)
					fifo = os.NewFile(uintptr(fd), "fifo")
					defer fifo.Close()
				case out == "fdpipe":
					r, pw, err := os.Pipe()
					must(err)
					defer r.Close()
					defer pw.Close()
					fifo = r
					outPath = fmt.Sprintf("/proc/self/fd/%d", pw.Fd())
					syscall.SetNonblock(int(r.Fd()), true)
				case out == "self":
					outPath = fmt.Sprintf("/proc/self/fd/%d", in.Fd())
				}
				x.Step()
				err = op.run(in, outPath)
				x.Outcome(what, fmt.Sprint(err != nil))
				after := snapshot(w.root)
				if err != nil && c11mustWork(out, false, false) {
					x.Fail("%s: %v", what, err)
				}
				var got []byte
				if err == nil {
					if fifo != nil {
						buf := make([]byte, 200000)
						n, _ := syscall.Read(int(fifo.Fd()), buf)
						if n < 0 {
							n = 0
						}
						got = buf[:n]
					} else if out == "self" {
						got, err = os.ReadFile(w.path(inName))
						must(err)
					} else {
						got, err = os.ReadFile(outPath)
						if err != nil {
							x.Fail("%s succeeds but reading the output gives %v", what, err)
						}
					}
					if err := op.check(b, got); err != nil {
						x.Fail("%s succeeds but reading the output gives: %v", what, err)
					}
				}
				// what else may have changed
				named := strings.TrimPrefix(out, "./")
				switch out {
				case "sub/../in", "symdir/../in":
					named = "in"
				case "symdir/newname":
					named = "sub/newname"
				}
				inoIn := before[w.resolve(inName)].ino
				if g := after[named]; err == nil && g.kind == "file" && g.perm != 0644 {
					isNew := true
					for _, n := range before {
						isNew = isNew && n.ino != g.ino
					}
					if isNew {
						x.Fail("%s: the new file %s has mode %o", what, named, g.perm)
					}
				}
				for k, n := range before {
					g, ok := after[k]
					if k == named && err == nil && n.kind != "fifo" {
						continue
					}
					if !ok {
						x.Fail("%s: %s is gone", what, k)
					}
					if n.kind == "dir" {
						if g.kind != "dir" || g.ino != n.ino {
							x.Fail("%s: directory %s was replaced", what, k)
						}
						continue
					}
					if g.kind == n.kind && g.data == n.data && (n.kind != "file" || n.ino == g.ino) {
						continue
					}
					// written through a symbolic link that is itself the output?
					if err == nil && before[named].kind == "link" && n.kind == "file" && n.ino != inoIn && n.ino == before[outRes].ino && g.data == string(got) {
						continue
					}
					if err == nil && inName == named && before[named].kind == "link" && n.ino == inoIn && g.data == string(got) {
						continue // the input named by the very link
					}
					x.Fail("%s (error %v): %s is %s, was %s", what, err, k, g, n)
				}
				for k, g := range after {
					if _, ok := before[k]; !ok && !(err == nil && (k == named || k == outRes)) {
						x.Fail("%s (error %v): %s is there: %s", what, err, k, g)
					}
				}
				x.Validated()
				if err != nil || fifo != nil || out == "self" {
					return nil, err == nil
				}
				return op.after(b, got), true
			}
			makePkg := func(x *X, room, payload int) *built {
				p := newPkg()
				p.payload = fileData(7, payload)
				switch room {
				case 1:
					p.sig = []tagv{tBytes(sigReserved, make([]byte, 4000))}
				case 2:
					p.sig = []tagv{tBytes(sigRSA, make([]byte, 40)), tBytes(sigPGP, make([]byte, 52))}
				case 3:
					p.sig = []tagv{tBytes(sigReserved, make([]byte, 150))}
				}
				return p.build()
			}
			ops := []signOp{
				{rsa: bytes.Repeat([]byte{0x88}, 40), pgp: bytes.Repeat([]byte{0x99}, 52)},
				{sign: true, signer: signerNamed("eddsa")},
				{rsa: bytes.Repeat([]byte{0x77}, 600), pgp: bytes.Repeat([]byte{0x66}, 300)},
				{rsa: []byte{1}, pgp: []byte{2, 3}},
			}
			return []*Part{
				{
					Name: "aliases", Scratch: true,
					Desc: fmt.Sprintf("%d output paths (the input, hard and symbolic links to it and to other files, several spellings, dangling, looping, new, missing, pipes, directories, /proc/self/fd) x 3 input paths x with and without further links of input and output x 4 amounts of room in the signature header x 4 signatures x 2 payload sizes", len(c11outs)),
					Run: func(x *X) {
						out := c11outs[x.Choose(len(c11outs))]
						inName := c11ins[x.Choose(len(c11ins))]
						il, ol := x.Bool(), x.Bool()
						room, k, size := x.Choose(4), x.Choose(len(ops)), []int{20, 40000}[x.Choose(2)]
						b := makePkg(x, room, size)
						if inName == "inlink" && !il {
							return
						}
						w := c11make(x, b.raw, il, ol)
						what := fmt.Sprintf("signing %s to %s (input links %v, other links %v, room %d, operation %d, payload %d)", inName, out, il, ol, room, k, size)
						x.Logf("%s", what)
						x.State(x.prefix())
						one(x, w, inName, out, ops[k], b, what)
					},
				},
				{
					Name: "room", Scratch: true,
					Desc: "reserved space of 0 to 800 bytes in the signature header, and old signatures of 0 to 300 bytes; 4 signatures; written to the input itself, a hard link to it and another file: every relation of the new signature header's size to the old one's",
					Run: func(x *X) {
						p := newPkg()
						p.payload = fileData(7, 100)
						n := x.Choose(801 + 301)
						if n > 800 {
							n -= 801
							p.sig = []tagv{tBytes(sigRSA, make([]byte, n)), tBytes(sigPGP, make([]byte, n/2))}
						} else {
							p.sig = []tagv{tBytes(sigReserved, make([]byte, n))}
						}
						k := x.Choose(len(ops))
						out := []string{"in", "inlink", "other"}[x.Choose(3)]
						b := p.build()
						w := c11make(x, b.raw, out == "inlink", false)
						x.State(x.prefix())
						one(x, w, "in", out, ops[k], b, fmt.Sprintf("room %d, signing to %s, operation %d", n, out, k))
					},
				},
				{
					Name: "twice", Scratch: true,
					Desc: fmt.Sprintf("2 signings in a row, of the same input or of the first output, to each pair of %d output paths, with and without links, room or not", len(c11outs)),
					Run: func(x *X) {
						out := c11outs[x.Choose(len(c11outs))]
						out2 := c11outs[x.Choose(len(c11outs))]
						chain := x.Bool()
						links := x.Bool()
						room := x.Choose(2)
						k, k2 := 0, 2
						if thorough {
							k, k2 = x.Choose(len(ops)), x.Choose(len(ops))
						} else if x.Bool() {
							k, k2 = 2, 0
						}
						b := makePkg(x, room, 20)
						w := c11make(x, b.raw, links, links)
						what := fmt.Sprintf("links %v, room %d: signing in to %s (%d)", links, room, out, k)
						x.Logf("%s", what)
						x.State(x.prefix())
						nb, ok := one(x, w, "in", out, ops[k], b, what)
						if !ok || nb == nil && chain {
							return
						}
						inName := "in"
						b2 := b
						if chain {
							inName, b2 = out, nb
						} else {
							raw, err := os.ReadFile(w.path("in"))
							must(err)
							if nb != nil && bytes.Equal(raw, nb.raw) {
								b2 = nb
							}
						}
						what += fmt.Sprintf(", then %s to %s (%d)", inName, out2, k2)
						x.Logf("%s", what)
						one(x, w, inName, out2, ops[k2], b2, what)
					},
				},
				{
					Name: "replaced-input", Scratch: true,
					Desc: "the input's name given to another file, removed, or made a link to another file after it was opened; written to each output path",
					Run: func(x *X) {
						out := c11outs[x.Choose(len(c11outs))]
						how := x.Choose(3)
						il := x.Bool()
						room, k := x.Choose(3), x.Choose(2)
						b := makePkg(x, room, 20)
						w := c11make(x, b.raw, il, false)
						if out == "self" || out == "fdpipe" || strings.Contains(out, "fifo") {
							return
						}
						in, err := os.Open(w.path("in"))
						must(err)
						defer in.Close()
						must(os.Remove(w.path("in")))
						switch how {
						case 0:
							must(os.WriteFile(w.path("in"), []byte("another file now"), 0644))
						case 1:
							must(os.Symlink("other", w.path("in")))
						}
						before := snapshot(w.root)
						what := fmt.Sprintf("signing a replaced (%d) input to %s (links %v room %d op %d)", how, out, il, room, k)
						x.Logf("%s", what)
						x.State(x.prefix())
						x.Step()
						err = ops[k].run(in, w.path(out))
						x.Outcome(out, err != nil)
						if err == nil {
							got, err := os.ReadFile(w.path(out))
							if err != nil {
								x.Fail("%s: reading the output gives %v", what, err)
							}
							if err := ops[k].check(b, got); err != nil {
								x.Fail("%s: the output is wrong: %v", what, err)
							}
						} else if c11mustWork(out, false, false) {
							x.Fail("%s: %v", what, err)
						}
						if before[strings.TrimPrefix(out, "./")].kind == "file" {
							after := snapshot(w.root)
							for k, n := range before {
								if k == strings.TrimPrefix(out, "./") || n.kind == "dir" || n.group == "" {
									continue
								}
								if g := after[k]; g.data != n.data {
									x.Fail("%s: %s is %s, was %s", what, k, g, n)
								}
							}
						}
						x.Validated()
					},
				},
				{
					Name: "stdout", Scratch: true, Workers: 1,
					Desc: "output path '-': standard output gets the package and the files stay as they are",
					Run: func(x *X) {
						il := x.Bool()
						room, k := x.Choose(4), x.Choose(len(ops))
						b := makePkg(x, room, 20000)
						w := c11make(x, b.raw, il, false)
						old, err := os.Getwd()
						must(err)
						must(os.Chdir(w.root))
						defer os.Chdir(old)
						in, err := os.Open("in")
						must(err)
						defer in.Close()
						before := snapshot(w.root)
						r, pw, err := os.Pipe()
						must(err)
						defer r.Close()
						so := os.Stdout
						os.Stdout = pw
						x.Step()
						err = ops[k].run(in, "-")
						os.Stdout = so
						pw.Close()
						x.State(x.prefix())
						if err != nil {
							x.Fail("writing to standard output: %v", err)
						}
						got, err := io.ReadAll(r)
						must(err)
						if err := ops[k].check(b, got); err != nil {
							x.Fail("standard output is wrong: %v", err)
						}
						if d := diffSnap(before, snapshot(w.root), true); d != "" {
							x.Fail("writing to standard output: %s", d)
						}
						x.Validated()
					},
				},
				{
					Name: "relative", Scratch: true, Workers: 1,
					Desc: "input and output named relative to the current directory",
					Run: func(x *X) {
						il := x.Bool()
						room, k := x.Choose(3), x.Choose(len(ops))
						out := []string{"in", "./in", "newname", "symin", "inlink", "other", "sub/newname", "../al/in"}[x.Choose(8)]
						b := makePkg(x, room, 20)
						w := c11make(x, b.raw, il, false)
						old, err := os.Getwd()
						must(err)
						must(os.Chdir(w.root))
						defer os.Chdir(old)
						in, err := os.Open("in")
						must(err)
						defer in.Close()
						x.Step()
						err = ops[k].run(in, out)
						x.State(x.prefix())
						if err != nil {
							x.Fail("signing to %s: %v", out, err)
						}
						got, err := os.ReadFile(out)
						must(err)
						if err := ops[k].check(b, got); err != nil {
							x.Fail("signing to %s: %v", out, err)
						}
						if out != "in" && !strings.HasSuffix(out, "/in") {
							if got, _ := os.ReadFile("in"); !bytes.Equal(got, b.raw) {
								x.Fail("signing to %s changes the input", out)
							}
						} else if il {
							if got, _ := os.ReadFile("sub/in3"); !bytes.Equal(got, b.raw) {
								x.Fail("signing to %s changes a hard link", out)
							}
						}
						x.Validated()
					},
				},
			}
		},
	})
}
