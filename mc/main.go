package main

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

const (
	maxWorkers  = 16
	journalSlot = 8192
	hangLimit   = 60 * time.Second
	runUID      = 61111
	runGID      = 61111
)

// Env is what drivers see of the process they run in.
type Env struct {
	Scratch string // private directory of this process
	Tier    string
	jour    []byte
	partIdx uint32
}

func (e *Env) openJournal(path string) error {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0666)
	if err != nil {
		return err
	}
	defer f.Close()
	if err := f.Truncate(maxWorkers * journalSlot); err != nil {
		return err
	}
	e.jour, err = syscall.Mmap(int(f.Fd()), 0, maxWorkers*journalSlot, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	return err
}

// journal notes which case a worker is about to run, where it survives the
// death of the process.
func (e *Env) journal(id int, p *Part, fixed []uint16) {
	if e.jour == nil {
		return
	}
	s := e.jour[id*journalSlot : (id+1)*journalSlot]
	binary.LittleEndian.PutUint32(s[8:], e.partIdx)
	n := len(fixed)
	if n > (journalSlot-16)/2 {
		n = (journalSlot - 16) / 2
	}
	binary.LittleEndian.PutUint32(s[12:], uint32(n))
	for i := 0; i < n; i++ {
		binary.LittleEndian.PutUint16(s[16+2*i:], fixed[i])
	}
	binary.LittleEndian.PutUint64(s, uint64(time.Now().UnixNano()))
}

func (e *Env) journalDone(id int) {
	if e.jour != nil {
		binary.LittleEndian.PutUint64(e.jour[id*journalSlot:], 0)
	}
}

type journalEntry struct {
	since   time.Time
	part    int
	choices []uint16
}

func readJournal(path string) (out []journalEntry) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for i := 0; i+journalSlot <= len(b); i += journalSlot {
		s := b[i : i+journalSlot]
		t := binary.LittleEndian.Uint64(s)
		if t == 0 {
			continue
		}
		n := int(binary.LittleEndian.Uint32(s[12:]))
		if n > (journalSlot-16)/2 {
			continue
		}
		je := journalEntry{since: time.Unix(0, int64(t)), part: int(binary.LittleEndian.Uint32(s[8:]))}
		for j := 0; j < n; j++ {
			je.choices = append(je.choices, binary.LittleEndian.Uint16(s[16+2*j:]))
		}
		out = append(out, je)
	}
	return
}

// Prop is a property's check.
type Prop struct {
	ID          string
	Bits32      func(part string) bool // parts that also run in a 32-bit build
	Assumptions []string
	Parts       func(tier string) []*Part
}

var props = map[string]*Prop{}

func register(p *Prop) {
	props[p.ID] = p
	if p.Bits32 == nil {
		return
	}
	parts := p.Parts
	p.Parts = func(tier string) []*Part {
		ps := parts(tier)
		for _, part := range ps {
			if p.Bits32(part.Name) {
				q := *part
				q.Name += "-32bit"
				q.Desc = "as built for a 32-bit platform: " + q.Desc
				q.CGO = true
				ps = append(ps, &q)
			}
		}
		return ps
	}
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc check|worker|replay|list ...")
		os.Exit(2)
	}
	if os.Args[1] == "child" {
		childMain(os.Args[2:])
		return
	}
	if os.Args[1] == "conc" {
		concMain(os.Args[2:])
		return
	}
	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			for _, t := range []string{"quick", "thorough"} {
				for _, p := range props[id].Parts(t) {
					fmt.Printf("%s %-8s %-28s %s\n", id, t, p.Name, p.Desc)
				}
			}
		}
	case "worker":
		workerMain(os.Args[2:])
	case "check":
		os.Exit(checkMain(os.Args[2:]))
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

// ---------------------------------------------------------------- worker

func workerMain(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	scratch := fs.String("scratch", "", "")
	deadline := fs.Float64("deadline", 600, "seconds")
	replay := fs.String("replay", "", "part:choice,choice,...")
	cgo := fs.Bool("cgo", false, "run the cgo parts")
	only := fs.String("only", "", "run only this part")
	out := fs.String("out", "", "")
	fs.Parse(args)
	syscall.Umask(022)
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(16 << 30)
	p := props[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property")
		os.Exit(2)
	}
	env := &Env{Scratch: *scratch, Tier: *tier}
	if err := os.Chdir(*scratch); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	parts := p.Parts(*tier)
	if *replay != "" {
		name, cs, _ := strings.Cut(*replay, ":")
		var choices []uint16
		for _, c := range strings.Split(cs, ",") {
			if c == "" {
				continue
			}
			n, err := strconv.Atoi(c)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			choices = append(choices, uint16(n))
		}
		for _, part := range parts {
			if part.Name != name {
				continue
			}
			w := &workerCtx{id: 0, mem: map[string]any{}, env: env}
			if part.Scratch {
				w.dir = filepath.Join(*scratch, "w0")
				os.MkdirAll(w.dir, 0755)
			}
			if part.Setup != nil {
				if err := part.Setup(env); err != nil {
					fmt.Fprintln(os.Stderr, err)
					os.Exit(2)
				}
			}
			_, f := runOne(part, w, choices, true)
			if f == nil {
				fmt.Println("held")
				os.Exit(0)
			}
			for _, l := range f.Trace {
				fmt.Println("  " + l)
			}
			fmt.Println("FAILED: " + f.Msg)
			os.Exit(1)
		}
		fmt.Fprintln(os.Stderr, "no such part")
		os.Exit(2)
	}
	if err := env.openJournal(filepath.Join(*scratch, "journal")); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	end := time.Now().Add(time.Duration(*deadline * float64(time.Second)))
	var results []partResult
	// the time left is shared among the parts that are left
	n := 0
	for _, part := range parts {
		if part.CGO == *cgo && (*only == "" || *only == part.Name) {
			n++
		}
	}
	for i, part := range parts {
		if part.CGO != *cgo || (*only != "" && *only != part.Name) {
			continue
		}
		env.partIdx = uint32(i)
		left := time.Until(end)
		share := left / time.Duration(n) * 3
		if share > left {
			share = left
		}
		n--
		var r partResult
		if part.Setup != nil {
			if err := part.Setup(env); err != nil {
				r = partResult{Name: part.Name, Error: "setup: " + err.Error()}
			}
		}
		if r.Error == "" {
			e := &explorer{p: part, env: env, deadline: time.Now().Add(share)}
			r = e.run()
		}
		results = append(results, r)
		b, _ := json.Marshal(results)
		if err := os.WriteFile(*out+".tmp", b, 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		os.Rename(*out+".tmp", *out)
		if r.Violation != nil {
			break
		}
	}
	os.Exit(0)
}

// ---------------------------------------------------------------- supervisor

type supervisor struct {
	prop, tier, verif string
	bin, cgobin       string
	scratch           string
	known             []string
	knownText         map[string]string
	proc              *os.Process
}

func copyFile(dst, src string, mode os.FileMode) error {
	b, err := os.ReadFile(src)
	if err != nil {
		return err
	}
	return os.WriteFile(dst, b, mode)
}

func (s *supervisor) command(bin string, args ...string) *exec.Cmd {
	cmd := exec.Command(bin, args...)
	cmd.Dir = s.scratch
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + s.scratch, "TMPDIR=" + s.scratch, "VERIF_REPO=" + os.Getenv("VERIF_REPO"), "VMC_KNOWN=" + strings.Join(s.known, "\n")}
	cmd.Env = append(cmd.Env, "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
	for _, k := range []string{"GOMAXPROCS"} {
		if v, ok := os.LookupEnv(k); ok {
			cmd.Env = append(cmd.Env, k+"="+v)
		}
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if os.Getuid() == 0 {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: runUID, Gid: runGID, NoSetGroups: false}
	}
	return cmd
}

type death struct {
	reason string // "" if it ended normally
	stderr string
	hung   bool
}

// runWorker runs a worker process to its end.
func (s *supervisor) runWorker(bin string, args []string, limit time.Duration, journal string) death {
	errf, err := os.Create(filepath.Join(s.scratch, fmt.Sprintf("stderr.%d", time.Now().UnixNano())))
	if err != nil {
		return death{reason: "harness: " + err.Error()}
	}
	defer os.Remove(errf.Name())
	defer errf.Close()
	var cmd *exec.Cmd
	runtime.LockOSThread() // Pdeathsig belongs to the thread
	defer runtime.UnlockOSThread()
	cmd = s.command(bin, args...)
	cmd.Stderr = errf
	cmd.Stdout = errf
	err = cmd.Start()
	if err != nil && cmd.SysProcAttr.Credential != nil {
		// not permitted to change user here
		cmd = s.command(bin, args...)
		cmd.SysProcAttr.Credential = nil
		cmd.Stderr = errf
		cmd.Stdout = errf
		err = cmd.Start()
	}
	if err != nil {
		return death{reason: "harness: " + err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	start := time.Now()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	kill := func() {
		syscall.Kill(-cmd.Process.Pid, syscall.SIGQUIT)
		select {
		case <-done:
		case <-time.After(3 * time.Second):
		}
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		select {
		case <-done:
		case <-time.After(10 * time.Second):
		}
	}
	tail := func() string {
		b, _ := os.ReadFile(errf.Name())
		if len(b) > 6000 {
			b = append(append(append([]byte{}, b[:3000]...), "\n...\n"...), b[len(b)-3000:]...)
		}
		return string(b)
	}
	for {
		select {
		case err := <-done:
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			if err == nil {
				return death{stderr: tail()}
			}
			return death{reason: err.Error(), stderr: tail()}
		case <-tick.C:
			if time.Since(start) > limit {
				kill()
				return death{reason: fmt.Sprintf("no end after %v", limit), stderr: tail(), hung: true}
			}
			if journal == "" {
				continue
			}
			for _, je := range readJournal(journal) {
				if time.Since(je.since) > hangLimit {
					kill()
					return death{reason: fmt.Sprintf("one case ran for more than %v", hangLimit), stderr: tail(), hung: true}
				}
			}
		}
	}
}

func choicesString(cs []uint16) string {
	var out []string
	for _, c := range cs {
		out = append(out, strconv.Itoa(int(c)))
	}
	return strings.Join(out, ",")
}

func (s *supervisor) scratchDir() error {
	for _, base := range []string{"/dev/shm", os.TempDir()} {
		d, err := os.MkdirTemp(base, "vmc")
		if err != nil {
			continue
		}
		if err := os.Chmod(d, 0755); err != nil {
			os.RemoveAll(d)
			continue
		}
		// must be able to run programs from there
		b := filepath.Join(d, "mc")
		if err := copyFile(b, s.bin, 0755); err != nil {
			os.RemoveAll(d)
			continue
		}
		if err := exec.Command(b, "list").Run(); err != nil {
			os.RemoveAll(d)
			continue
		}
		s.scratch = d
		s.bin = b
		if s.cgobin != "" {
			b := filepath.Join(d, "mc-cgo")
			if err := copyFile(b, s.cgobin, 0755); err != nil {
				return err
			}
			s.cgobin = b
		}
		return nil
	}
	return errors.New("no usable scratch directory")
}

func (s *supervisor) workDir(name string) (string, error) {
	d := filepath.Join(s.scratch, name)
	if err := os.MkdirAll(d, 0755); err != nil {
		return "", err
	}
	if os.Getuid() == 0 {
		os.Chown(d, runUID, runGID)
	}
	return d, nil
}

func (s *supervisor) cleanup() {
	if s.scratch != "" && strings.Contains(s.scratch, "/vmc") {
		// directories without permissions may be in the way for other users
		filepath.Walk(s.scratch, func(p string, info os.FileInfo, err error) error {
			if err == nil && info.IsDir() {
				os.Chmod(p, 0700)
			}
			return nil
		})
		os.RemoveAll(s.scratch)
	}
}

func checkMain(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	verif := fs.String("verif", "/verif", "")
	cgobin := fs.String("cgobin", "", "")
	deadline := fs.Float64("deadline", 0, "seconds for the exploration")
	replay := fs.String("replay", "", "replay file")
	only := fs.String("only", "", "run only this part (no evidence is written)")
	fs.Parse(args)
	start := time.Now()
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	s := &supervisor{prop: *prop, tier: *tier, verif: *verif, bin: self, cgobin: *cgobin, knownText: map[string]string{}}
	sigc := make(chan os.Signal, 1)
	signal.Notify(sigc, syscall.SIGINT, syscall.SIGTERM, syscall.SIGHUP)
	go func() {
		<-sigc
		s.cleanup()
		os.Exit(3)
	}()
	if err := s.scratchDir(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer s.cleanup()
	if *replay != "" {
		return s.replay(*replay)
	}
	s.readKnown()
	p := props[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", *prop)
		return 2
	}
	if *deadline == 0 {
		*deadline = 300
		if *tier == "thorough" {
			*deadline = 1800
		}
	}
	parts := p.Parts(*tier)
	var results []partResult
	var harness []string
	for _, mode := range []bool{false, true} {
		any := false
		for _, part := range parts {
			if part.CGO == mode && (*only == "" || *only == part.Name) {
				any = true
			}
		}
		if !any {
			continue
		}
		bin := s.bin
		if mode {
			if s.cgobin == "" && p.Bits32 != nil {
				fmt.Println("note: no 32-bit programs can be run here; the 32-bit parts are left out")
				continue
			}
			if s.cgobin == "" {
				fmt.Fprintln(os.Stderr, "cgo build is missing")
				return 2
			}
			bin = s.cgobin
		}
		rs, errs := s.runParts(bin, parts, mode, *only, *deadline)
		results = append(results, rs...)
		harness = append(harness, errs...)
	}
	code := 0
	violations := 0
	for i := range results {
		r := &results[i]
		fmt.Printf("%s %-28s exec=%d steps=%d states=%d outcomes=%d exhaustive=%v %.1fs\n", *prop, r.Name, r.Executions, r.Steps, r.States, r.Outcomes, r.Exhaustive, r.WallS)
		if r.Error != "" {
			harness = append(harness, r.Name+": "+r.Error)
		}
		for _, u := range r.Unrepro {
			fmt.Printf("  not reproduced: %.300s\n", u)
		}
		if r.Violation == nil {
			continue
		}
		violations++
		path := s.writeReplay(r.Violation)
		fmt.Printf("  %s choices=[%s]\n", r.Violation.Part, choicesString(r.Violation.Choices))
		for _, l := range r.Violation.Trace {
			fmt.Printf("    %s\n", l)
		}
		fmt.Printf("    => %s\n", r.Violation.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
		code = 1
	}
	seen := map[string]bool{}
	for _, r := range results {
		for _, k := range r.Known {
			if !seen[k] {
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", *prop, k, s.knownText[k])
			}
			seen[k] = true
		}
	}
	if *only == "" {
		if err := s.writeEvidence(p, results, violations, time.Since(start)); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	if code == 0 && len(harness) > 0 {
		for _, h := range harness {
			fmt.Fprintln(os.Stderr, "harness error: "+h)
		}
		return 2
	}
	return code
}

func (s *supervisor) runParts(bin string, parts []*Part, cgo bool, only string, deadline float64) (results []partResult, harness []string) {
	name := "run"
	if cgo {
		name = "runcgo"
	}
	for attempt := 0; attempt < 2; attempt++ {
		dir, err := s.workDir(fmt.Sprintf("%s%d", name, attempt))
		if err != nil {
			return nil, []string{err.Error()}
		}
		out := filepath.Join(dir, "result.json")
		args := []string{"worker", "-prop", s.prop, "-tier", s.tier, "-scratch", dir, "-out", out, "-deadline", fmt.Sprint(deadline), "-only", only}
		if cgo {
			args = append(args, "-cgo")
		}
		d := s.runWorker(bin, args, time.Duration(deadline*float64(time.Second))+5*time.Minute, filepath.Join(dir, "journal"))
		results = nil
		if b, err := os.ReadFile(out); err == nil {
			if err := json.Unmarshal(b, &results); err != nil {
				return nil, []string{err.Error()}
			}
		}
		if d.reason == "" {
			return results, nil
		}
		// the worker died or hung: find the case that did it
		for i, je := range readJournal(filepath.Join(dir, "journal")) {
			if je.part >= len(parts) {
				continue
			}
			if d.hung && time.Since(je.since) < hangLimit/2 {
				continue
			}
			ok := 0
			var last death
			for try := 0; try < 2; try++ {
				rd, err := s.workDir(fmt.Sprintf("re%d-%d-%d", attempt, i, try))
				if err != nil {
					return results, []string{err.Error()}
				}
				rargs := []string{"worker", "-prop", s.prop, "-tier", s.tier, "-scratch", rd, "-replay", parts[je.part].Name + ":" + choicesString(je.choices)}
				r := s.runWorker(bin, rargs, hangLimit, "")
				if r.reason != "" && !strings.HasPrefix(r.reason, "harness:") && r.reason != "exit status 2" || strings.Contains(r.stderr, "fatal error:") || strings.Contains(r.stderr, "panic:") {
					ok++
					last = r
				} else {
					break
				}
			}
			if ok == 2 {
				v := &violation{Part: parts[je.part].Name, Choices: je.choices, Repro: 5,
					Msg: fmt.Sprintf("the process does not survive this case (%s): %s", last.reason, last.stderr)}
				results = append(results, partResult{Name: parts[je.part].Name, Desc: parts[je.part].Desc, Executions: 1, Violation: v})
				return results, nil
			}
		}
		harness = []string{fmt.Sprintf("worker ended abnormally (%s) and no single case reproduces it: %s", d.reason, d.stderr)}
	}
	return results, harness
}

// readKnown takes the lines "known: property=ID key=KEY: text" of this property.
func (s *supervisor) readKnown() {
	b, err := os.ReadFile(filepath.Join(s.verif, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if l, ok := strings.CutPrefix(l, "known: property="+s.prop+" key="); ok {
			k, text, _ := strings.Cut(l, ":")
			s.known = append(s.known, k)
			s.knownText[k] = strings.TrimSpace(text)
		}
	}
}

type replayFile struct {
	Property string   `json:"property"`
	Tier     string   `json:"tier"`
	Part     string   `json:"part"`
	Choices  []uint16 `json:"choices"`
	Msg      string   `json:"what"`
	Trace    []string `json:"trace"`
	Command  string   `json:"command"`
}

func (s *supervisor) writeReplay(v *violation) string {
	dir := filepath.Join(s.verif, "out")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s.json", s.prop, v.Part))
	b, _ := json.MarshalIndent(replayFile{s.prop, s.tier, v.Part, v.Choices, v.Msg, v.Trace, "cd /verif && ./check.sh replay " + path}, "", " ")
	if err := os.WriteFile(path, b, 0644); err != nil {
		return "-"
	}
	return path
}

func (s *supervisor) replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	s.prop, s.tier = rf.Property, rf.Tier
	s.readKnown()
	dir, err := s.workDir("replay")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	bin := s.bin
	for _, p := range props[rf.Property].Parts(rf.Tier) {
		if p.Name == rf.Part && p.CGO {
			bin = s.cgobin
		}
	}
	d := s.runWorker(bin, []string{"worker", "-prop", rf.Property, "-tier", rf.Tier, "-scratch", dir, "-replay", rf.Part + ":" + choicesString(rf.Choices)}, hangLimit, "")
	fmt.Println(d.stderr)
	if d.reason == "" {
		fmt.Println("the property holds in this execution")
		return 0
	}
	fmt.Println(d.reason)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
	return 1
}

func (s *supervisor) writeEvidence(p *Prop, results []partResult, violations int, wall time.Duration) error {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var states, steps, valid, execs, choices uint64
	exhaustive := len(results) > 0
	var samples []string
	var plist []map[string]any
	for _, r := range results {
		states += uint64(r.States)
		steps += r.Steps
		valid += r.Validated
		execs += r.Executions
		choices += r.Choices
		if !r.Exhaustive {
			exhaustive = false
		}
		for i, sm := range r.Samples {
			if i < 2 {
				samples = append(samples, sm)
			}
		}
		m := map[string]any{"part": r.Name, "space": r.Desc, "executions": r.Executions, "choice_points_resolved": r.Choices, "implementation_steps": r.Steps,
			"distinct_states": r.States, "distinct_outcomes": r.Outcomes, "executions_compared_with_model": r.Validated, "exhaustive": r.Exhaustive, "wall_s": r.WallS}
		if r.MaxDevs > 0 {
			m["deviation_bound"] = r.MaxDevs
		}
		if len(r.Known) > 0 {
			m["known_findings"] = r.Known
		}
		if len(r.Unrepro) > 0 {
			m["unreproduced"] = r.Unrepro
		}
		plist = append(plist, m)
	}
	if len(samples) == 0 {
		samples = []string{"none"}
	}
	ev := map[string]any{
		"property": s.prop, "tier": s.tier, "seed": seed, "level": "model_checking", "wall_s": wall.Seconds(), "violations": violations,
		"coverage": map[string]any{
			"states": states, "transitions": steps, "traces_validated_against_impl": valid, "samples": samples, "exhaustive": exhaustive,
			"executions": execs, "parts": plist,
			"explanation": "Stateless exhaustive exploration of the compiled implementation: every choice sequence of each part's bounded space is executed on the real code and compared with a reference model. states = distinct canonical (model state, input) points reached; transitions = calls made on the implementation; traces_validated_against_impl = executions (or inner cases) whose observed behaviour was compared step by step with the model's.",
		},
	}
	if len(p.Assumptions) > 0 {
		ev["assumptions"] = p.Assumptions
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(s.verif, "evidence")
	if err := os.MkdirAll(dir, 0755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, s.prop+".json"), append(b, '\n'), 0644)
}

var _ = unsafe.Pointer(nil)
