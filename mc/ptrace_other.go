//go:build !(linux && amd64)

package main

import "syscall"

// The 32-bit build runs no parts that inject faults.

const (
	markBegin = 2
	markEnd   = 3
)

type childCmd struct {
	Op       string
	In, Out  string
	Pgp, Rsa []byte
	Umask    int
	Pair     []childCmd
}

type childResult struct {
	Err      string
	Ok       bool
	Fds      []string
	InClosed bool
	Text     string
	Pair     []childResult
}

func c20sysParts(thorough bool) []*Part { return nil }

func childRead(name string) (string, error) { return "", nil }

func marker(k int, b []byte) int { panic("harness: no fault injection here") }

func childMain(args []string) { panic("harness: no fault injection here") }

type sysc struct {
	nr          uint64
	args        [6]uint64
	name, class string
	path, path2 string
	flush       bool
}

func (s sysc) String() string { return s.name + " " + s.path }

type fault struct {
	errno syscall.Errno
	short int
	kill  bool
	lose  func()
}

func (f fault) String() string { return f.errno.Error() }

func (x *X) inject(c childCmd, root string, alternatives func(s sysc, done []string) []fault) (r childResult, killed bool, done []string, calls int) {
	panic("harness: no fault injection here")
}

type sysInfo struct{ count int }

var sysTable = map[uint64]sysInfo{}
