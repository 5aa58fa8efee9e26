package world

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/Harvey-OS/ninep/sim/simrt"
)

// Job is what a worker process is asked to do.
type Job struct {
	Mode    string // search, replay, shrink, hashes
	Prop    string
	Start   uint64
	Stride  uint64
	Runs    int
	Seconds float64
	Streams *[simrt.NStreams][]uint32
	Class   string
	Out     string
	Hashes  string
	Before  []uint64 // seeds to run first (state left behind in the process)
	Known   []string // class NUL regexp: violations already recorded
}

// Found is a violation with what reproduces it.
type Found struct {
	Seed    uint64
	Class   string
	Msg     string
	Streams [simrt.NStreams][]uint32
	Events  []string `json:",omitempty"`
	Hash    string
	Steps   int
	Now     time.Duration
	History []uint64 `json:",omitempty"` // seeds run before in the process
}

// Result is what a worker reports.
type Result struct {
	Runs       int
	Abandoned  int
	Reasons    map[string]int
	Nontrivial int
	Known      map[string]int
	Steps      int64
	MaxQuiet   int
	MaxSteps   int
	SimTime    time.Duration
	Choices    int64
	Counts     map[string]int
	RunCounts  map[string]int // in how many runs each counter was reached
	Found      *Found
	Trouble    string
	Samples    []string
	HashList   []string `json:",omitempty"`
	Elapsed    float64
	Done       bool
}

type knownViol struct {
	class string
	re    *regexp.Regexp
}

func one(t *testing.T, prop string, seed uint64, st *[simrt.NStreams][]uint32, rec bool) (s *simrt.Sim) {
	synctest.Test(t, func(t *testing.T) {
		s = RunOne(prop, seed, st, rec)
	})
	return
}

func found(seed uint64, s *simrt.Sim) *Found {
	v := s.Violation()
	return &Found{Seed: seed, Class: v.Class, Msg: v.Msg, Streams: s.Rec, Events: s.Events, Hash: fmt.Sprintf("%016x", s.Hash()), Steps: s.Steps, Now: s.Now}
}

// Worker is the body of the worker process.
func Worker(t *testing.T) {
	path := os.Getenv("VERIF_JOB")
	if path == "" {
		t.Skip("no job")
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(2 << 30)
	var job Job
	b, err := os.ReadFile(path)
	if err == nil {
		err = json.Unmarshal(b, &job)
	}
	if err != nil {
		t.Fatal(err)
	}
	res := &Result{Counts: map[string]int{}, RunCounts: map[string]int{}, Reasons: map[string]int{}, Known: map[string]int{}}
	start := time.Now()
	save := func() {
		res.Elapsed = time.Since(start).Seconds()
		b, err := json.Marshal(res)
		if err != nil {
			t.Fatal(err)
		}
		os.WriteFile(job.Out+".tmp", b, 0644)
		os.Rename(job.Out+".tmp", job.Out)
	}
	// watchdog: a run that does not come to an end says where it is
	beat := make(chan uint64, 1024)
	go func() {
		var last uint64
		for {
			select {
			case last = <-beat:
			case <-time.After(60 * time.Second):
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Fprintf(os.Stderr, "worker: run %d does not end\n%s\n", last, buf)
				os.Exit(3)
			}
		}
	}()
	sf, err := os.Create(job.Out + ".seed")
	if err != nil {
		t.Fatal(err)
	}
	defer sf.Close()
	mark := func(seed uint64) {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], seed)
		sf.WriteAt(b[:], 0)
	}
	var known []knownViol
	for _, k := range job.Known {
		c, m, _ := strings.Cut(k, "\x00")
		known = append(known, knownViol{c, regexp.MustCompile(m)})
	}
	for _, sd := range job.Before {
		beat <- sd
		one(t, job.Prop, sd, nil, false)
	}
	switch job.Mode {
	case "replay":
		s := one(t, job.Prop, job.Start, job.Streams, true)
		res.Runs = 1
		res.Trouble = s.Harness
		if s.Violation() != nil {
			res.Found = found(job.Start, s)
		} else {
			res.Samples = s.Events
			res.HashList = []string{fmt.Sprintf("%016x", s.Hash())}
		}
	case "shrink":
		res.Found = shrink(t, job, beat)
	default:
		var hw *bufio.Writer
		if job.Hashes != "" {
			f, err := os.Create(job.Hashes)
			if err != nil {
				t.Fatal(err)
			}
			defer f.Close()
			hw = bufio.NewWriter(f)
			defer hw.Flush()
		}
		seed := job.Start
		var done []uint64
		for n := 0; ; n++ {
			if job.Runs > 0 && n >= job.Runs {
				break
			}
			if job.Seconds > 0 && time.Since(start).Seconds() > job.Seconds {
				break
			}
			select {
			case beat <- seed:
			default:
			}
			mark(seed)
			rec := len(res.Samples) < 1 && n%50 == 7
			s := one(t, job.Prop, seed, nil, rec)
			res.Runs++
			res.Steps += int64(s.Steps)
			if s.MaxQuiet > res.MaxQuiet {
				res.MaxQuiet = s.MaxQuiet
			}
			if s.Steps > res.MaxSteps {
				res.MaxSteps = s.Steps
			}
			res.SimTime += s.Now
			for i := range s.Rec {
				res.Choices += int64(len(s.Rec[i]))
			}
			for k, v := range s.Counts {
				res.Counts[k] += v
				res.RunCounts[k]++
			}
			ok := s.Other == "" && s.Switches > 0 && s.Logged > 1
			if ok {
				res.Nontrivial++
			}
			if hw != nil {
				var b [8]byte
				if ok {
					binary.LittleEndian.PutUint64(b[:], s.Hash())
				}
				hw.Write(b[:])
			}
			if job.Mode == "hashes" {
				res.HashList = append(res.HashList, fmt.Sprintf("%016x", s.Hash()))
			}
			if s.Harness != "" {
				res.Trouble = fmt.Sprintf("seed %d: %s", seed, s.Harness)
				break
			}
			if s.Other != "" {
				res.Abandoned++
				r := s.Other
				if len(r) > 200 {
					r = r[:200]
				}
				if len(res.Reasons) < 10 {
					res.Reasons[r]++
				}
			}
			if v := s.Violation(); v != nil {
				old := false
				for _, k := range known {
					if k.class == v.Class && k.re.MatchString(v.Msg) {
						res.Known[k.class+": "+k.re.String()]++
						old = true
						break
					}
				}
				if !old {
					res.Found = found(seed, s)
					res.Found.History = done
					break
				}
			}
			if rec {
				ev := s.Events
				if len(ev) > 60 {
					ev = ev[:60]
				}
				res.Samples = append(res.Samples, fmt.Sprintf("seed %d", seed))
				res.Samples = append(res.Samples, ev...)
			}
			done = append(done, seed)
			seed += job.Stride
		}
	}
	res.Done = true
	save()
}

// shrink makes the choice streams of a violation smaller while the same class
// of violation remains.
func shrink(t *testing.T, job Job, beat chan uint64) *Found {
	end := time.Now().Add(time.Duration(job.Seconds * float64(time.Second)))
	cur := *job.Streams
	s := one(t, job.Prop, job.Start, &cur, true)
	if s.Violation() == nil || s.Violation().Class != job.Class {
		return nil
	}
	best := found(job.Start, s)
	cur = s.Rec
	try := func(c [simrt.NStreams][]uint32) bool {
		if time.Now().After(end) {
			return false
		}
		select {
		case beat <- job.Start:
		default:
		}
		s := one(t, job.Prop, job.Start, &c, true)
		if s.Violation() == nil || s.Violation().Class != job.Class || s.Harness != "" {
			return false
		}
		cur = c
		// trailing zeros say nothing
		for i := range cur {
			for n := len(cur[i]); n > 0 && cur[i][n-1] == 0; n-- {
				cur[i] = cur[i][:n-1]
			}
		}
		best = found(job.Start, s)
		best.Streams = cur
		return true
	}
	with := func(i int, v []uint32) [simrt.NStreams][]uint32 {
		c := cur
		c[i] = v
		return c
	}
	order := []int{simrt.Fault, simrt.Net, simrt.Sched, simrt.Op, simrt.Cfg}
	for round := 0; round < 6 && time.Now().Before(end); round++ {
		changed := false
		for _, i := range order {
			// all zero, then truncate
			if len(cur[i]) > 0 && try(with(i, nil)) {
				changed = true
				continue
			}
			for n := len(cur[i]) / 2; n > 0; n /= 2 {
				for len(cur[i]) >= n && try(with(i, append([]uint32(nil), cur[i][:len(cur[i])-n]...))) {
					changed = true
				}
			}
			// delete and zero blocks
			for blk := len(cur[i]) / 2; blk > 0; blk /= 2 {
				if len(cur[i])/blk > 400 {
					break
				}
				for at := 0; at < len(cur[i]) && time.Now().Before(end); {
					e := at + blk
					if e > len(cur[i]) {
						e = len(cur[i])
					}
					del := append(append([]uint32(nil), cur[i][:at]...), cur[i][e:]...)
					if try(with(i, del)) {
						changed = true
						continue
					}
					zero := append([]uint32(nil), cur[i]...)
					nz := false
					for j := at; j < e; j++ {
						nz = nz || zero[j] != 0
						zero[j] = 0
					}
					if nz && try(with(i, zero)) {
						changed = true
					}
					at = e
				}
			}
			// lower values
			for at := 0; at < len(cur[i]) && at < 400 && time.Now().Before(end); at++ {
				for cur[i][at] > 0 {
					v := cur[i][at]
					low := append([]uint32(nil), cur[i]...)
					low[at] = v / 2
					if !try(with(i, low)) {
						low = append([]uint32(nil), cur[i]...)
						low[at] = v - 1
						if v == 1 || !try(with(i, low)) {
							break
						}
					}
					changed = true
					if at >= len(cur[i]) {
						break
					}
				}
			}
		}
		if !changed {
			break
		}
	}
	return best
}
