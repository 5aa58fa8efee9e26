package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// The same shapes as in sim/world.

const nStreams = 5

type Job struct {
	Mode    string
	Prop    string
	Start   uint64
	Stride  uint64
	Runs    int
	Seconds float64
	Streams *[nStreams][]uint32
	Class   string
	Out     string
	Hashes  string
	Before  []uint64
	Known   []string
}

type Found struct {
	Seed    uint64
	Class   string
	Msg     string
	Streams [nStreams][]uint32
	Events  []string `json:",omitempty"`
	Hash    string
	Steps   int
	Now     time.Duration
	History []uint64 `json:",omitempty"`
}

type Result struct {
	Runs       int
	Abandoned  int
	Nontrivial int
	Reasons    map[string]int
	Steps      int64
	MaxQuiet   int
	MaxSteps   int
	SimTime    time.Duration
	Choices    int64
	Counts     map[string]int
	RunCounts  map[string]int
	Known      map[string]int
	Found      *Found
	Trouble    string
	Samples    []string
	HashList   []string `json:",omitempty"`
	Elapsed    float64
	Done       bool
}

// Replay is a replay file.
type Replay struct {
	Property string
	Class    string
	Message  string
	Seed     uint64
	Streams  *[nStreams][]uint32
	Before   []uint64 `json:",omitempty"`
	Fatal    string   `json:",omitempty"` // the worker process died; no streams
	Hash     string
	Steps    int
	Trace    []string
	Original string `json:",omitempty"`
}

var (
	verif = func() string {
		if d := os.Getenv("VERIF_DIR"); d != "" {
			return d
		}
		d, _ := os.Getwd()
		return d
	}()
	repo = func() string {
		if d := os.Getenv("VERIF_REPO"); d != "" {
			return d
		}
		return "/repo"
	}()
	work string
)

func cleanup() {
	if work != "" && os.Getenv("VERIF_KEEP") == "" {
		os.RemoveAll(work)
	}
}

func workdir() {
	work = filepath.Join(verif, ".work", fmt.Sprintf("run%d", os.Getpid()))
	os.RemoveAll(work)
	if err := os.MkdirAll(work, 0755); err != nil {
		die("%v", err)
	}
}

func copyTree(from, to string) error {
	return filepath.WalkDir(from, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		t := filepath.Join(to, rel)
		if d.IsDir() {
			return os.MkdirAll(t, 0755)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(t, b, 0644)
	})
}

// build instruments the tree and builds the worker in dir.
func buildWorker(dir string) error {
	if err := os.MkdirAll(dir, 0755); err != nil {
		return err
	}
	os.Setenv("GO111MODULE", "off")
	if _, err := instrument(repo, dir); err != nil {
		return fmt.Errorf("instrumenting: %v", err)
	}
	if err := copyTree(filepath.Join(verif, "sim"), filepath.Join(dir, "sim")); err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module github.com/Harvey-OS/ninep\n\ngo 1.27\n"), 0644); err != nil {
		return err
	}
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-o", filepath.Join(dir, "worker"), "./sim/world")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GO111MODULE=on", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0", "PWD="+dir)
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("building the worker: %v\n%s", err, out)
	}
	return nil
}

type outcome struct {
	res   *Result
	rc    int
	err   string // stderr and stdout tail when the process did not report
	seed  uint64 // the run it was in
	found bool
}

func runJob(ctx context.Context, id string, job Job) outcome {
	job.Out = filepath.Join(work, "job"+id+".out")
	os.Remove(job.Out)
	os.Remove(job.Out + ".seed")
	if job.Known == nil {
		job.Known = knownFor(job.Prop)
	}
	jf := filepath.Join(work, "job"+id+".json")
	b, _ := json.Marshal(job)
	if err := os.WriteFile(jf, b, 0644); err != nil {
		die("%v", err)
	}
	cmd := exec.CommandContext(ctx, filepath.Join(work, "worker"), "-test.run", "TestWorker", "-test.timeout", "0")
	cmd.Dir = work
	cmd.Env = append(os.Environ(), "VERIF_JOB="+jf, "GOMAXPROCS=1", "GOTRACEBACK=single")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	runtime.LockOSThread()
	err := cmd.Run()
	runtime.UnlockOSThread()
	o := outcome{}
	if sb, e := os.ReadFile(job.Out + ".seed"); e == nil && len(sb) >= 8 {
		o.seed = binary.LittleEndian.Uint64(sb)
	}
	if b, e := os.ReadFile(job.Out); e == nil {
		o.res = &Result{}
		if json.Unmarshal(b, o.res) != nil || !o.res.Done {
			o.res = nil
		}
	}
	if o.res == nil {
		var ee *exec.ExitError
		if errors.As(err, &ee) {
			o.rc = ee.ExitCode()
		} else {
			o.rc = -1
		}
		t := buf.String()
		if len(t) > 4000 {
			t = t[:2500] + "\n...\n" + t[len(t)-1500:]
		}
		o.err = t
	}
	return o
}

var knownFile = "KNOWN_FINDINGS.txt"

type known struct{ prop, class, match, text string }

// readKnown reads the known findings: lines
//
//	known: property=ID class=CLASS match=REGEXP :: what fails
func readKnown() (ks []known) {
	b, _ := os.ReadFile(filepath.Join(verif, knownFile))
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		head, text, _ := strings.Cut(l[len("known: "):], " :: ")
		k := known{text: text}
		head, k.match, _ = strings.Cut(head, " match=")
		for _, f := range strings.Fields(head) {
			n, v, _ := strings.Cut(f, "=")
			switch n {
			case "property":
				k.prop = v
			case "class":
				k.class = v
			}
		}
		if _, err := regexp.Compile(k.match); err != nil {
			die("%s: %v", knownFile, err)
		}
		ks = append(ks, k)
	}
	return
}

func knownFor(prop string) (out []string) {
	out = []string{}
	for _, k := range readKnown() {
		if k.prop == prop {
			out = append(out, k.class+"\x00"+k.match)
		}
	}
	return
}

func verifSeed() uint64 {
	n, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 63)
	if err != nil {
		n = 1
	}
	return n
}

func check(prop string) int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	secs := 45.0
	if tier == "thorough" {
		secs = 540
	}
	if v, err := strconv.ParseFloat(os.Getenv("VERIF_SECONDS"), 64); err == nil {
		secs = v
	}
	seed := verifSeed()
	workdir()
	if err := buildWorker(work); err != nil {
		die("%v", err)
	}
	tBuild := time.Since(t0).Seconds()
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	if nw < 2 {
		nw = 2
	}
	base := seed * 1000000007 % (1 << 52)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	outs := make([]outcome, nw)
	var wg sync.WaitGroup
	var mu sync.Mutex
	first := -1
	tSearch := time.Now()
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			o := runJob(ctx, fmt.Sprint(i), Job{Mode: "search", Prop: prop, Start: base + uint64(i), Stride: uint64(nw), Seconds: secs,
				Hashes: filepath.Join(work, fmt.Sprintf("hashes%d", i))})
			mu.Lock()
			defer mu.Unlock()
			outs[i] = o
			if o.res == nil || o.res.Trouble != "" || o.res.Found != nil {
				if first < 0 {
					first = i
					cancel()
				}
			}
		}(i)
	}
	wg.Wait()
	wall := time.Since(tSearch).Seconds()
	ctx = context.Background()

	tot := &Result{Counts: map[string]int{}, RunCounts: map[string]int{}, Reasons: map[string]int{}, Known: map[string]int{}}
	for _, o := range outs {
		if o.res == nil {
			continue
		}
		r := o.res
		tot.Runs += r.Runs
		tot.Abandoned += r.Abandoned
		tot.Nontrivial += r.Nontrivial
		tot.Steps += r.Steps
		if r.MaxQuiet > tot.MaxQuiet {
			tot.MaxQuiet = r.MaxQuiet
		}
		if r.MaxSteps > tot.MaxSteps {
			tot.MaxSteps = r.MaxSteps
		}
		tot.SimTime += r.SimTime
		tot.Choices += r.Choices
		for k, v := range r.Counts {
			tot.Counts[k] += v
		}
		for k, v := range r.RunCounts {
			tot.RunCounts[k] += v
		}
		for k, v := range r.Reasons {
			tot.Reasons[k] += v
		}
		for k, v := range r.Known {
			tot.Known[k] += v
		}
		if len(tot.Samples) < 130 {
			tot.Samples = append(tot.Samples, r.Samples...)
		}
	}

	if first >= 0 {
		o := outs[first]
		switch {
		case o.res == nil:
			return fatal(ctx, prop, tier, seed, o, tot, t0)
		case o.res.Trouble != "":
			die("the harness is in trouble: %s", o.res.Trouble)
		default:
			return violation(ctx, prop, tier, seed, o.res.Found, tot, t0)
		}
	}
	if tot.Runs == 0 {
		die("no run was made")
	}
	// determinism: the same seeds again in two fresh processes
	nd := 60
	h1 := runJob(ctx, "h1", Job{Mode: "hashes", Prop: prop, Start: base, Stride: 1, Runs: nd})
	h2 := runJob(ctx, "h2", Job{Mode: "hashes", Prop: prop, Start: base, Stride: 1, Runs: nd})
	diff := 0
	if h1.res == nil || h2.res == nil {
		die("the repeated runs did not report: %s %s", h1.err, h2.err)
	}
	for i := range h1.res.HashList {
		if i >= len(h2.res.HashList) || h1.res.HashList[i] != h2.res.HashList[i] {
			diff++
		}
	}
	if diff > 0 {
		fmt.Fprintf(os.Stderr, "vt: warning: %d of %d seeds ran differently in a second process\n", diff, nd)
	}
	distinct, allHashes := distinctHashes(nw)
	ks := readKnown()
	for _, k := range ks {
		if k.prop == prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
		}
	}
	writeEvidence(prop, tier, seed, tot, distinct, allHashes, nd, diff, secs, wall, tBuild, time.Since(t0).Seconds(), 0)
	if lack := vacuous(prop, tot); lack != "" {
		die("the search did not reach what it must: %s", lack)
	}
	fmt.Printf("property %s held: %d runs (%d distinct), %.0f runs/s, seeds from %d\n", prop, tot.Runs, distinct, float64(tot.Runs)/wall, base)
	return 0
}

// vacuous tells when a search examined too little to mean anything.
func vacuous(prop string, r *Result) string {
	if r.Runs < 20 {
		return fmt.Sprintf("only %d runs", r.Runs)
	}
	return ""
}

func distinctHashes(nw int) (distinct, all int) {
	seen := map[uint64]bool{}
	for i := 0; i < nw; i++ {
		b, _ := os.ReadFile(filepath.Join(work, fmt.Sprintf("hashes%d", i)))
		for ; len(b) >= 8; b = b[8:] {
			h := binary.LittleEndian.Uint64(b)
			if h != 0 { // zero marks a run that is not counted
				seen[h] = true
			}
			all++
		}
	}
	return len(seen), all
}

func replayPath(prop, class string, seed uint64) string {
	os.MkdirAll(filepath.Join(verif, "replays"), 0755)
	return filepath.Join(verif, "replays", fmt.Sprintf("%s-%s-%d.json", prop, class, seed))
}

func save(p string, r Replay) {
	b, _ := json.MarshalIndent(r, "", " ")
	if err := os.WriteFile(p, b, 0644); err != nil {
		die("%v", err)
	}
}

// violation confirms, minimises and reports a violation.
func violation(ctx context.Context, prop, tier string, seed uint64, f *Found, tot *Result, t0 time.Time) int {
	again := func(st *[nStreams][]uint32, before []uint64) *Found {
		o := runJob(ctx, "r", Job{Mode: "replay", Prop: prop, Start: f.Seed, Streams: st, Before: before})
		if o.res == nil || o.res.Found == nil || o.res.Found.Class != f.Class {
			return nil
		}
		return o.res.Found
	}
	var before []uint64
	g := again(&f.Streams, nil)
	if g == nil && len(f.History) > 0 {
		before = f.History
		g = again(&f.Streams, before)
	}
	if g == nil {
		die("seed %d: %s: %s: does not happen again", f.Seed, f.Class, f.Msg)
	}
	p := replayPath(prop, f.Class, f.Seed)
	best, streams := g, f.Streams
	if before == nil {
		o := runJob(ctx, "s", Job{Mode: "shrink", Prop: prop, Start: f.Seed, Streams: &f.Streams, Class: f.Class, Seconds: 15})
		if o.res != nil && o.res.Found != nil {
			if h := again(&o.res.Found.Streams, nil); h != nil {
				best, streams = h, o.res.Found.Streams
			}
		}
	}
	save(p, Replay{Property: prop, Class: f.Class, Message: best.Msg, Seed: f.Seed, Streams: &streams, Before: before, Hash: best.Hash, Steps: best.Steps, Trace: best.Events, Original: f.Msg})
	fmt.Printf("seed %d: %s: %s\n", f.Seed, f.Class, best.Msg)
	fmt.Printf("minimised to %d steps (found in %d)\n", best.Steps, f.Steps)
	ev := best.Events
	if len(ev) > 25 {
		ev = ev[len(ev)-25:]
	}
	for _, e := range ev {
		if len(e) > 240 {
			e = e[:240] + "..."
		}
		fmt.Println("  " + e)
	}
	d, a := distinctHashes(8)
	writeEvidence(prop, tier, seed, tot, d, a, 0, 0, 0, time.Since(t0).Seconds(), 0, time.Since(t0).Seconds(), 1)
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
	return 1
}

// fatal handles a worker process that died or never finished a run: when the
// same seed does the same again in a fresh process, the code under test did
// it.
func fatal(ctx context.Context, prop, tier string, seed uint64, o outcome, tot *Result, t0 time.Time) int {
	if o.seed == 0 {
		die("a worker failed (%d): %s", o.rc, o.err)
	}
	r := runJob(ctx, "f", Job{Mode: "search", Prop: prop, Start: o.seed, Stride: 1, Runs: 1})
	if r.res != nil && r.res.Found != nil {
		return violation(ctx, prop, tier, seed, r.res.Found, tot, t0)
	}
	if r.res != nil {
		die("a worker failed (%d) in seed %d, but not again: %s", o.rc, o.seed, o.err)
	}
	what := "the process dies"
	if r.rc == 3 {
		what = "the program loops without end"
	}
	if i := strings.Index(r.err, "fatal error:"); i >= 0 {
		what, _, _ = strings.Cut(r.err[i:], "\n")
	}
	p := replayPath(prop, "fatal", o.seed)
	save(p, Replay{Property: prop, Class: "fatal", Message: what, Seed: o.seed, Fatal: what, Trace: strings.Split(r.err, "\n")})
	fmt.Printf("seed %d: %s\n", o.seed, what)
	d, a := distinctHashes(8)
	writeEvidence(prop, tier, seed, tot, d, a, 0, 0, 0, time.Since(t0).Seconds(), 0, time.Since(t0).Seconds(), 1)
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
	return 1
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		die("%v", err)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		die("%s: %v", file, err)
	}
	workdir()
	if err := buildWorker(work); err != nil {
		die("%v", err)
	}
	job := Job{Mode: "replay", Prop: r.Property, Start: r.Seed, Streams: r.Streams, Before: r.Before}
	if r.Fatal != "" {
		job = Job{Mode: "search", Prop: r.Property, Start: r.Seed, Stride: 1, Runs: 1}
	}
	o := runJob(context.Background(), "r", job)
	if o.res == nil {
		if r.Fatal != "" {
			fmt.Printf("%s\nVIOLATION property=%s replay=%s\n", r.Fatal, r.Property, file)
			return 1
		}
		die("the worker failed: %s", o.err)
	}
	if o.res.Found == nil {
		fmt.Printf("no violation on this tree\n")
		return 0
	}
	f := o.res.Found
	for _, e := range f.Events {
		fmt.Println("  " + e)
	}
	fmt.Printf("%s: %s\n", f.Class, f.Msg)
	if f.Hash == r.Hash {
		fmt.Printf("exactly as recorded (%d steps, history hash %s)\n", f.Steps, f.Hash)
	} else {
		fmt.Printf("not exactly as recorded: history hash %s, recorded %s\n", f.Hash, r.Hash)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, file)
	return 1
}

func selftest(n int) int {
	workdir()
	if err := buildWorker(work); err != nil {
		die("%v", err)
	}
	bad := 0
	for _, p := range propIDs() {
		a := runJob(context.Background(), "a", Job{Mode: "hashes", Prop: p, Start: 1, Stride: 1, Runs: n})
		b := runJob(context.Background(), "b", Job{Mode: "hashes", Prop: p, Start: 1, Stride: 1, Runs: n})
		if a.res == nil || b.res == nil {
			fmt.Printf("%s: no report: %s%s\n", p, a.err, b.err)
			bad++
			continue
		}
		d := 0
		for i := range a.res.HashList {
			if i >= len(b.res.HashList) || a.res.HashList[i] != b.res.HashList[i] {
				d++
			}
		}
		fmt.Printf("%s: %d seeds, %d ran differently in a second process\n", p, n, d)
		if d > 0 {
			bad++
		}
	}
	if bad > 0 {
		return 2
	}
	return 0
}

func propIDs() []string {
	var ids []string
	for p := range meta {
		ids = append(ids, p)
	}
	sort.Strings(ids)
	return ids
}
