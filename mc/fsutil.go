package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
)

// rmTree removes a directory whatever the permissions inside.
func rmTree(dir string) {
	if !strings.Contains(dir, "/vmc") && !strings.Contains(dir, "/w") {
		panic("harness: rmTree " + dir)
	}
	if os.RemoveAll(dir) == nil {
		return
	}
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if info != nil && info.IsDir() {
			os.Chmod(p, 0700)
		}
		return nil
	})
	if err := os.RemoveAll(dir); err != nil {
		panic("harness: " + err.Error())
	}
}

// fresh makes an empty directory in the worker's scratch space.
func (x *X) fresh(name string) string {
	d := filepath.Join(x.w.dir, name)
	if err := os.Mkdir(d, 0755); err != nil {
		rmTree(d)
		if err := os.Mkdir(d, 0755); err != nil {
			panic("harness: " + err.Error())
		}
	}
	return d
}

// node is one object of a snapshot.
type node struct {
	kind  string // "dir", "file", "link", "fifo", ...
	perm  os.FileMode
	data  string // content or link target
	group string // for files with several names: all of them
	ino   uint64
	mtime int64
	nlink uint64
}

func (n node) String() string {
	s := fmt.Sprintf("%s %o", n.kind, n.perm)
	if n.kind == "file" || n.kind == "link" {
		d := n.data
		if len(d) > 40 {
			d = fmt.Sprintf("%s...(%d)", d[:40], len(d))
		}
		s += fmt.Sprintf(" %q", d)
	}
	if n.group != "" {
		s += " = " + n.group
	}
	return s
}

// snapshot records everything below root, including root itself as ".".
func snapshot(root string) map[string]node {
	out := map[string]node{}
	byIno := map[uint64][]string{}
	var walk func(p, rel string)
	walk = func(p, rel string) {
		var st syscall.Stat_t
		if err := syscall.Lstat(p, &st); err != nil {
			out[rel] = node{kind: "error " + err.Error()}
			return
		}
		n := node{perm: os.FileMode(st.Mode & 07777), ino: st.Ino, mtime: st.Mtim.Nano(), nlink: uint64(st.Nlink)}
		switch st.Mode & syscall.S_IFMT {
		case syscall.S_IFDIR:
			n.kind = "dir"
			closed := st.Mode&0700 != 0700
			if closed {
				os.Chmod(p, 0700)
			}
			ents, err := os.ReadDir(p)
			if err != nil {
				n.kind = "dir error " + err.Error()
			}
			for _, e := range ents {
				walk(p+"/"+e.Name(), strings.TrimPrefix(rel+"/"+e.Name(), "./"))
			}
			if closed {
				os.Chmod(p, os.FileMode(st.Mode&0777))
			}
		case syscall.S_IFREG:
			n.kind = "file"
			b, err := os.ReadFile(p)
			if err != nil && st.Mode&0400 == 0 {
				os.Chmod(p, 0600)
				b, err = os.ReadFile(p)
				os.Chmod(p, os.FileMode(st.Mode&0777))
			}
			if err != nil {
				n.kind = "file error " + err.Error()
			}
			n.data = string(b)
			byIno[st.Ino] = append(byIno[st.Ino], rel)
		case syscall.S_IFLNK:
			n.kind = "link"
			n.data, _ = os.Readlink(p)
		case syscall.S_IFIFO:
			n.kind = "fifo"
		default:
			n.kind = fmt.Sprintf("special %o", st.Mode&syscall.S_IFMT)
		}
		out[rel] = n
	}
	walk(root, ".")
	for _, names := range byIno {
		if len(names) > 1 {
			sort.Strings(names)
			g := strings.Join(names, ",")
			for _, name := range names {
				n := out[name]
				n.group = g
				out[name] = n
			}
		}
	}
	return out
}

// snapText is the snapshot as text, without what changes by itself.
func snapText(s map[string]node) string {
	var names []string
	for k := range s {
		names = append(names, k)
	}
	sort.Strings(names)
	var b strings.Builder
	for _, k := range names {
		fmt.Fprintf(&b, "%s: %s\n", k, s[k])
	}
	return b.String()
}

// diffSnap tells the first difference between two snapshots. full also compares
// inode numbers and modification times.
func diffSnap(want, got map[string]node, full bool) string {
	var names []string
	for k := range want {
		names = append(names, k)
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			names = append(names, k)
		}
	}
	sort.Strings(names)
	for _, k := range names {
		w, ok := want[k]
		g, ok2 := got[k]
		switch {
		case !ok2:
			return fmt.Sprintf("%s is missing (%s)", k, w)
		case !ok:
			return fmt.Sprintf("%s is there (%s)", k, g)
		case w.String() != g.String() || w.data != g.data:
			return fmt.Sprintf("%s is %s, want %s", k, g, w)
		case full && (w.ino != g.ino || w.mtime != g.mtime || w.nlink != g.nlink):
			return fmt.Sprintf("%s was replaced or rewritten (inode %d, was %d; mtime %d, was %d; links %d, was %d)", k, g.ino, w.ino, g.mtime, w.mtime, g.nlink, w.nlink)
		}
	}
	return ""
}
