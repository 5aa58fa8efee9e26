// Package simrt is the simulator's run time: a seeded cooperative scheduler
// for the instrumented code. Exactly one task runs at a time; a task gives up
// control at yield points and inside blocking operations, and the controller
// (the goroutine that called Run*) decides, from the recorded choice streams,
// which task goes next. testing/synctest tells the controller when every
// goroutine has come to rest.
package simrt

import (
	"fmt"
	"hash/fnv"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"
)

// Choice streams. Keeping them apart makes minimisation robust: dropping a
// fault does not shift the schedule.
const (
	Cfg   = iota // per-run configuration (swarm)
	Op           // workload
	Sched        // who runs next
	Net          // chunk sizes, delivery
	Fault        // faults
	NStreams
)

var StreamNames = [NStreams]string{"cfg", "op", "sched", "net", "fault"}

type task struct {
	id      int
	name    string
	site    string
	resume  chan struct{}
	killc   chan struct{}
	enabled func() bool // nil: always
	parked  bool
	done    bool
	exiting bool
	dying   bool
	prio    uint64
	deadl   time.Duration // >0: timer park
}

// Violation is a property violation found in a run.
type Violation struct {
	Class string `json:"class"` // stable class used by minimisation
	Msg   string `json:"msg"`
}

// Sim is one simulated run.
type Sim struct {
	mu      sync.Mutex
	tasks   []*task
	running *task
	last    *task
	nextID  int
	killing bool

	Now      time.Duration
	Steps    int
	Progress int // bytes moved on connections
	MaxQuiet int // most steps in a row without any moving

	rng    [NStreams]uint64
	replay bool
	in     [NStreams][]uint32
	pos    [NStreams]int
	Rec    [NStreams][]uint32

	quiet     int
	spin      int
	yieldMask uint64 // out of 1024
	salt      uint64
	yieldLeft int

	policy  int
	stick   int
	changes map[int]bool

	viol    *Violation
	Harness string // harness trouble: the run decides nothing
	Other   string // ended early by something that is not this property's

	Record bool
	Events []string
	hash   uint64

	Switches int // scheduling choices among several runnable tasks
	Logged   int

	Counts map[string]int
}

var cur *Sim

// Cur returns the run in progress.
func Cur() *Sim { return cur }

func splitmix(x *uint64) uint64 {
	*x += 0x9e3779b97f4a7c15
	z := *x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// New starts a run decided by seed, or by the given choice streams if replay
// is not nil. It must be called inside a synctest bubble.
func New(seed uint64, replay *[NStreams][]uint32, record bool) *Sim {
	s := &Sim{Record: record, Counts: map[string]int{}, hash: 14695981039346656037}
	for i := range s.rng {
		x := seed*0x9e3779b97f4a7c15 + uint64(i)*0xd1b54a32d192ed03
		splitmix(&x)
		s.rng[i] = x
	}
	if replay != nil {
		s.replay = true
		s.in = *replay
	}
	cur = s
	s.configure()
	return s
}

func (s *Sim) configure() {
	// Which yield points are active in this run, and how the scheduler picks.
	switch s.Draw(Cfg, 5) {
	case 0:
		s.yieldMask = 0
	case 1:
		s.yieldMask = 64
	case 2:
		s.yieldMask = 256
	case 3:
		s.yieldMask = 1024
	case 4:
		s.yieldMask = 512
	}
	s.salt = uint64(s.Draw(Cfg, 1<<16))
	s.yieldLeft = 1500
	s.policy = s.Draw(Cfg, 4)
	s.stick = s.Draw(Cfg, 8)
	s.changes = map[int]bool{}
	if s.policy == 2 {
		n := s.Draw(Cfg, 6)
		for i := 0; i < n; i++ {
			s.changes[s.Draw(Cfg, 400)] = true
		}
	}
}

func (s *Sim) mix(v uint64) {
	s.hash ^= v
	s.hash *= 1099511628211
	s.hash ^= s.hash >> 29
}

// Hash identifies the run's schedule and history.
func (s *Sim) Hash() uint64 { return s.hash }

func (s *Sim) choose(stream, n int, gen func() int) int {
	if n <= 1 {
		return 0
	}
	var v int
	if s.replay {
		if p := s.pos[stream]; p < len(s.in[stream]) {
			v = int(s.in[stream][p]) % n
		}
		s.pos[stream]++
	} else {
		v = gen()
	}
	s.Rec[stream] = append(s.Rec[stream], uint32(v))
	s.mix(uint64(v)<<8 | uint64(stream))
	return v
}

func (s *Sim) rand(stream int) uint64 { return splitmix(&s.rng[stream]) }

// Draw returns a value in [0,n) from the stream; 0 is the simplest choice.
func (s *Sim) Draw(stream, n int) int {
	return s.choose(stream, n, func() int { return int(s.rand(stream) % uint64(n)) })
}

// Chance is true num times out of den; false is the simple choice.
func (s *Sim) Chance(stream, num, den int) bool {
	return s.choose(stream, 2, func() int {
		if int(s.rand(stream)%uint64(den)) < num {
			return 1
		}
		return 0
	}) == 1
}

// Weighted picks an index by weight.
func (s *Sim) Weighted(stream int, w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	if t == 0 {
		return 0
	}
	// In replay an index of weight zero may come up; step to the next allowed.
	i := s.choose(stream, len(w), func() int {
		r := int(s.rand(stream) % uint64(t))
		for i, x := range w {
			if r < x {
				return i
			}
			r -= x
		}
		return 0
	})
	for w[i] == 0 {
		i = (i + 1) % len(w)
	}
	return i
}

// Bytes returns n bytes decided by the stream (one recorded draw).
func (s *Sim) Bytes(stream, n int) []byte {
	x := uint64(s.Draw(stream, 1<<24))
	b := make([]byte, n)
	for i := range b {
		if i%8 == 0 {
			splitmix(&x)
		}
		b[i] = byte(x >> (8 * (uint(i) % 8)))
	}
	return b
}

// Count adds to a named counter (faults fired, probes reached).
func (s *Sim) Count(name string) { s.Counts[name]++ }

// Logf records an event of the history. It never draws.
func (s *Sim) Logf(format string, args ...interface{}) {
	m := fmt.Sprintf(format, args...)
	s.Logged++
	h := fnv.New64a()
	h.Write([]byte(m))
	s.mix(h.Sum64())
	if s.Record {
		s.Events = append(s.Events, fmt.Sprintf("%6d %12v %s", s.Steps, s.Now, m))
	}
}

// Fail records a violation; the first one counts.
func (s *Sim) Fail(class, format string, args ...interface{}) {
	if s.stop() || s.killing {
		return
	}
	s.viol = &Violation{class, fmt.Sprintf(format, args...)}
	s.Logf("VIOLATION %s: %s", class, s.viol.Msg)
}

// Trouble records a problem of the harness itself.
func (s *Sim) Trouble(format string, args ...interface{}) {
	if s.Harness == "" && !s.killing {
		s.Harness = fmt.Sprintf(format, args...)
	}
}

func (s *Sim) Violation() *Violation { return s.viol }
func (s *Sim) stop() bool            { return s.viol != nil || s.Harness != "" || s.Other != "" }

// Abandon ends the run without a verdict.
func (s *Sim) Abandon(why string) {
	if s.Other == "" && !s.killing {
		s.Other = why
		s.Logf("run abandoned: %s", why)
	}
}

// Failed tells whether the run is over early.
func (s *Sim) Failed() bool { return s.stop() }

// ---------------------------------------------------------------- tasks

// Go starts a task. site names it.
func Go(site string, f func()) {
	s := cur
	if s == nil {
		go f()
		return
	}
	if s.killing {
		return
	}
	s.mu.Lock()
	t := &task{id: s.nextID, name: site, site: "start", resume: make(chan struct{}, 1), killc: make(chan struct{})}
	s.nextID++
	s.tasks = append(s.tasks, t)
	if !s.replay {
		x := s.rng[Sched] + uint64(t.id)*0x9e3779b97f4a7c15
		t.prio = splitmix(&x)
	}
	s.mu.Unlock()
	go func() {
		defer func() {
			r := recover()
			t.done = true
			if r != nil && !t.exiting {
				s.panicked(t, r, string(debug.Stack()))
			}
		}()
		s.parkAs(t, "start", nil)
		f()
	}()
}

func (s *Sim) panicked(t *task, r interface{}, stack string) {
	// Whose code panicked? The first frame below the panic that is not the
	// runtime's or the standard library's.
	lines := strings.Split(stack, "\n")
	seen := false
	frame := ""
	for i := 0; i+1 < len(lines); i++ {
		if strings.HasPrefix(lines[i], "panic(") {
			seen = true
			frame = ""
			continue
		}
		if seen && frame == "" && strings.HasPrefix(lines[i], "github.com/Harvey-OS/ninep/") && !shimFrame(lines[i]) {
			frame = lines[i] + " @" + strings.TrimSpace(lines[i+1])
		}
	}
	if strings.Contains(frame, "/ninep/sim/") {
		s.Trouble("panic in the harness, task %s: %v\n%s", t.name, r, stack)
		return
	}
	// the frame's argument values are addresses: leave them out
	if i := strings.Index(frame, "("); i > 0 {
		if j := strings.Index(frame, " @"); j > i {
			fn := frame[:i]
			if k := strings.LastIndex(frame[:j], "("); k > 0 {
				fn = frame[:k]
			}
			frame = fn + frame[j:]
		}
	}
	if i := strings.LastIndex(frame, " +0x"); i > 0 {
		frame = frame[:i]
	}
	if i := strings.Index(frame, " @"); i > 0 {
		p := frame[i+2:]
		if j := strings.LastIndex(p, "/"); j >= 0 {
			p = p[j+1:]
		}
		frame = frame[:i] + " " + p
	}
	s.Fail("crash", "the program panics in %s: %v (%s)", t.name, r, frame)
}

// shimFrame tells a stand-in for a standard package whose panics are its
// caller's doing: a send on a closed channel, an unlock of an unlocked mutex.
func shimFrame(l string) bool {
	for _, p := range []string{"simrt.", "simsync.", "simatomic.", "simlog."} {
		if strings.HasPrefix(l, "github.com/Harvey-OS/ninep/sim/"+p) {
			return true
		}
	}
	return false
}

// ProcessExit is called where the real program would have ended.
func ProcessExit(what string) {
	s := cur
	if s == nil {
		os.Exit(1)
	}
	s.Fail("exit", "the program exits: %s", what)
	if s.running != nil && !s.running.exiting {
		s.park("exit", func() bool { return false })
	}
}

func (s *Sim) parkAs(t *task, site string, enabled func() bool) {
	if t.exiting {
		return
	}
	s.mu.Lock()
	t.site = site
	t.enabled = enabled
	t.parked = true
	s.mu.Unlock()
	<-t.resume
	if t.dying {
		t.exiting = true
		runtime.Goexit()
	}
}

func (s *Sim) park(site string, enabled func() bool) {
	t := s.running
	if t == nil {
		if enabled != nil && !enabled() {
			s.Trouble("blocking operation %s outside a task", site)
		}
		return
	}
	s.parkAs(t, site, enabled)
}

// Park suspends the running task until the predicate holds and the scheduler
// picks it. The predicate is evaluated by the controller.
func Park(site string, enabled func() bool) {
	if cur != nil {
		cur.park(site, enabled)
	}
}

// Sleep suspends the running task for simulated time.
func Sleep(d time.Duration) {
	s := cur
	if s == nil || s.running == nil || s.running.exiting {
		return
	}
	t := s.running
	if d < 0 {
		d = 0
	}
	t.deadl = s.Now + d
	s.parkAs(t, "sleep", func() bool { return s.Now >= t.deadl })
	t.deadl = 0
}

// ParkUntil is Park with a deadline in simulated time (zero: none).
func ParkUntil(site string, deadline time.Duration, enabled func() bool) {
	s := cur
	if s == nil || s.running == nil || s.running.exiting {
		return
	}
	if deadline <= 0 {
		s.park(site, enabled)
		return
	}
	t := s.running
	t.deadl = deadline
	s.parkAs(t, site, func() bool { return s.Now >= deadline || enabled() })
	t.deadl = 0
}

// Task names the running task.
func Task() int {
	if cur == nil || cur.running == nil {
		return -1
	}
	return cur.running.id
}

// Exiting tells whether the calling task is being torn down: blocking
// operations then return at once.
func Exiting() bool { return cur == nil || cur.running == nil || cur.running.exiting }

// Killing tells whether the run is being torn down.
func Killing() bool { return cur != nil && cur.killing }

// Y is an optional yield point, placed before statements by the instrumenter.
func Y(site int) {
	s := cur
	if s == nil || s.running == nil || s.running.exiting {
		return
	}
	s.spin++
	if s.spin > 3000000 {
		s.spin = 0
		s.Count("forced-yield")
		s.park("spin", nil)
		return
	}
	if s.quiet > 0 || s.yieldMask == 0 || s.yieldLeft <= 0 {
		return
	}
	x := uint64(site)*0x9e3779b97f4a7c15 ^ s.salt
	if splitmix(&x)%1024 >= s.yieldMask {
		return
	}
	s.yieldLeft--
	s.park("y", nil)
}

// Z is a yield point in code that ought to work on private data.
func Z(site int) {
	s := cur
	if s == nil || s.running == nil || s.running.exiting {
		return
	}
	s.spin++
	if s.spin > 3000000 {
		s.spin = 0
		s.Count("forced-yield")
		s.park("spin", nil)
		return
	}
	if s.quiet > 0 || s.yieldMask == 0 || s.yieldLeft <= 0 {
		return
	}
	x := uint64(site)*0x9e3779b97f4a7c15 ^ s.salt
	if splitmix(&x)%16384 >= s.yieldMask {
		return
	}
	s.yieldLeft--
	s.park("z", nil)
}

// L is placed at the head of loop bodies in code without yield points.
func L() {
	s := cur
	if s == nil || s.running == nil || s.running.exiting {
		return
	}
	s.spin++
	if s.spin > 3000000 {
		s.spin = 0
		s.Count("forced-yield")
		s.park("spin", nil)
	}
}

// YieldPoint is an optional yield in simulated services.
func YieldPoint(site string) {
	s := cur
	if s == nil || s.running == nil || s.running.exiting || s.quiet > 0 || s.yieldMask == 0 || s.yieldLeft <= 0 {
		return
	}
	x := s.salt
	for i := 0; i < len(site); i++ {
		x = (x ^ uint64(site[i])) * 1099511628211
	}
	if splitmix(&x)%1024 >= s.yieldMask {
		return
	}
	s.yieldLeft--
	s.park(site, nil)
}

// Quiet runs f without optional yields.
func Quiet(f func()) {
	s := cur
	s.quiet++
	defer func() { s.quiet-- }()
	f()
}

// ---------------------------------------------------------------- controller

type Outcome int

const (
	Idle   Outcome = iota // nothing can run and no timer is set
	Budget                // step budget used up
	Failed                // violation or trouble
	Until                 // condition met
)

func (s *Sim) enabledTasks(buf []*task) []*task {
	s.mu.Lock()
	defer s.mu.Unlock()
	buf = buf[:0]
	live := s.tasks[:0]
	for _, t := range s.tasks {
		if t.done {
			continue
		}
		live = append(live, t)
		if t.parked && (t.enabled == nil || t.enabled()) {
			buf = append(buf, t)
		}
	}
	s.tasks = live
	return buf
}

func (s *Sim) nextTimer() (time.Duration, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	var best time.Duration
	ok := false
	for _, t := range s.tasks {
		if !t.done && t.parked && t.deadl > s.Now && (!ok || t.deadl < best) {
			best, ok = t.deadl, true
		}
	}
	return best, ok
}

func (s *Sim) step(t *task) {
	s.Steps++
	s.mix(uint64(t.id) + 0xabcdef)
	s.mu.Lock()
	t.parked = false
	s.mu.Unlock()
	s.running = t
	s.last = t
	s.spin = 0
	t.resume <- struct{}{}
	synctest.Wait()
	s.running = nil
}

func (s *Sim) pick(en []*task) *task {
	n := len(en)
	if n == 1 {
		return en[0]
	}
	s.Switches++
	// index 0 means: the task that ran last if it can go on, else the oldest
	sort.Slice(en, func(i, j int) bool {
		if (en[i] == s.last) != (en[j] == s.last) {
			return en[i] == s.last
		}
		return en[i].id < en[j].id
	})
	i := s.choose(Sched, n, func() int {
		r := s.rand(Sched)
		switch s.policy {
		case 1: // sticky
			if r%8 < uint64(s.stick) {
				return 0
			}
			return int(r >> 8 % uint64(n))
		case 2: // priorities with change points
			best := 0
			for k := range en {
				if en[k].prio > en[best].prio {
					best = k
				}
			}
			if s.changes[s.Steps] || s.Steps > 600 {
				en[best].prio = r % 1000
			}
			return best
		case 3: // youngest first, mostly
			if r%8 < 6 {
				best := 0
				for k := range en {
					if en[k].id > en[best].id {
						best = k
					}
				}
				return best
			}
		}
		return int(r % uint64(n))
	})
	return en[i]
}

// Run lets the tasks run until none can, the condition holds, or the budget
// of steps is used up. A large budget is one of steps without progress, that
// is without a byte moving on any connection. Simulated time advances only
// when nothing can run.
func (s *Sim) Run(budget int, until func() bool) Outcome {
	var buf []*task
	synctest.Wait()
	total := 0
	seen := s.Progress
	for n := 0; ; n++ {
		if budget >= 100000 && seen != s.Progress && total < 50*budget {
			seen = s.Progress
			total += n
			n = 0
		}
		if n > s.MaxQuiet {
			s.MaxQuiet = n
		}
		if s.stop() {
			return Failed
		}
		if until != nil && until() {
			return Until
		}
		if n >= budget {
			return Budget
		}
		buf = s.enabledTasks(buf)
		if len(buf) == 0 {
			d, ok := s.nextTimer()
			if !ok {
				return Idle
			}
			s.Now = d
			continue
		}
		s.step(s.pick(buf))
	}
}

// Blocked describes the tasks that are not done.
func (s *Sim) Blocked() string {
	var out []string
	s.mu.Lock()
	for _, t := range s.tasks {
		if !t.done {
			site := t.site
			if !t.parked {
				site = "channel"
			}
			out = append(out, t.name+"@"+site)
		}
	}
	s.mu.Unlock()
	return strings.Join(out, " ")
}

// Close tears the run down: every task is unwound, one at a time.
func (s *Sim) Close() {
	s.killing = true
	synctest.Wait()
	for round := 0; round < 1000; round++ {
		s.mu.Lock()
		var t *task
		for _, x := range s.tasks {
			if !x.done {
				t = x
				break
			}
		}
		s.mu.Unlock()
		if t == nil {
			break
		}
		t.dying = true
		s.running = t
		if t.parked {
			t.parked = false
			t.resume <- struct{}{}
		} else {
			close(t.killc)
		}
		synctest.Wait()
		if !t.done {
			// unwinding stopped at something the simulator does not own
			s.Harness = "task " + t.name + " does not unwind"
			t.done = true
		}
	}
	s.running = nil
	cur = nil
}

// ---------------------------------------------------------------- channels

func (s *Sim) wake(t *task, site string) {
	// After a real block this goroutine runs beside the one that woke it:
	// it parks at once.
	s.parkAs(t, site, nil)
}

func (s *Sim) killed(t *task) {
	t.exiting = true
	runtime.Goexit()
}

// SendTo is `c <- v`, written SendTo(c)(v).
func SendTo[T any](c chan<- T) func(T) {
	return func(v T) {
		s := cur
		if s == nil || s.running == nil {
			c <- v
			return
		}
		select {
		case c <- v:
			return
		default:
		}
		t := s.running
		if t.exiting {
			return
		}
		s.mu.Lock()
		t.site = "chan send"
		s.mu.Unlock()
		select {
		case c <- v:
			s.wake(t, "sent")
		case <-t.killc:
			s.killed(t)
		}
	}
}

// Recv is `<-c`.
func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

// Recv2 is the two-value `<-c`.
func Recv2[T any](c <-chan T) (v T, ok bool) {
	s := cur
	if s == nil || s.running == nil {
		v, ok = <-c
		return
	}
	select {
	case v, ok = <-c:
		return
	default:
	}
	t := s.running
	if t.exiting {
		return
	}
	s.mu.Lock()
	t.site = "chan recv"
	s.mu.Unlock()
	select {
	case v, ok = <-c:
		s.wake(t, "received")
	case <-t.killc:
		s.killed(t)
	}
	return
}

// Block is `select {}`.
func Block() {
	Park("select{}", func() bool { return false })
}

// SelCase is one case of a rewritten select.
type SelCase struct {
	dir reflect.SelectDir
	ch  reflect.Value
	val reflect.Value
}

func RecvCase[T any](c <-chan T) SelCase {
	return SelCase{dir: reflect.SelectRecv, ch: reflect.ValueOf(c)}
}

func SendCase[T any](c chan<- T) func(v T) SelCase {
	return func(v T) SelCase {
		return SelCase{dir: reflect.SelectSend, ch: reflect.ValueOf(c), val: reflect.ValueOf(&v).Elem()}
	}
}

// RecvVal gives a received value its type back.
func RecvVal[T any](c <-chan T, v reflect.Value) (r T) {
	if v.IsValid() {
		reflect.ValueOf(&r).Elem().Set(v)
	}
	return
}

// Select runs a select statement with the choice among ready cases decided by
// the schedule. It returns -1 for the default case.
func Select(hasDefault bool, cases ...SelCase) (int, reflect.Value, bool) {
	s := cur
	rc := make([]reflect.SelectCase, len(cases), len(cases)+1)
	for i, c := range cases {
		rc[i] = reflect.SelectCase{Dir: c.dir, Chan: c.ch, Send: c.val}
		if c.ch.IsNil() {
			rc[i].Chan = reflect.Value{}
			rc[i].Send = reflect.Value{}
		}
	}
	if s == nil || s.running == nil {
		if hasDefault {
			rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
		}
		i, v, ok := reflect.Select(rc)
		if i == len(cases) {
			i = -1
		}
		return i, v, ok
	}
	t := s.running
	try := func(i int) (reflect.Value, bool, bool) {
		j, v, ok := reflect.Select([]reflect.SelectCase{rc[i], {Dir: reflect.SelectDefault}})
		return v, ok, j == 0
	}
	n := len(cases)
	if n > 0 {
		start := 0
		if !t.exiting {
			start = s.Draw(Sched, n)
		}
		for k := 0; k < n; k++ {
			i := (start + k) % n
			if v, ok, hit := try(i); hit {
				return i, v, ok
			}
		}
	}
	if hasDefault {
		return -1, reflect.Value{}, false
	}
	if t.exiting {
		return -2, reflect.Value{}, false
	}
	s.mu.Lock()
	t.site = "select"
	s.mu.Unlock()
	rc = append(rc, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(t.killc)})
	i, v, ok := reflect.Select(rc)
	if i == n {
		s.killed(t)
	}
	s.wake(t, "selected")
	return i, v, ok
}

// MapKeys lists the keys of a map in an order the run decides.
func MapKeys[K comparable, V any](m map[K]V) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	rank := func(k K) (uint64, string) {
		if x, ok := any(k).(interface{ SimID() int }); ok {
			return uint64(x.SimID()), ""
		}
		v := reflect.ValueOf(k)
		switch v.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			return uint64(v.Int()), ""
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			return v.Uint(), ""
		case reflect.String:
			return 0, v.String()
		case reflect.Struct, reflect.Array:
			return 0, fmt.Sprintf("%v", k)
		}
		return 0, ""
	}
	sort.SliceStable(ks, func(i, j int) bool {
		a, as := rank(ks[i])
		b, bs := rank(ks[j])
		if a != b {
			return a < b
		}
		return as < bs
	})
	if s := cur; s != nil && s.running != nil && len(ks) > 1 {
		// rotate and maybe reverse: cheap, and shows order dependence
		r := s.Draw(Sched, 2*len(ks))
		if r >= len(ks) {
			for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
				ks[i], ks[j] = ks[j], ks[i]
			}
			r -= len(ks)
		}
		ks = append(ks[r:len(ks):len(ks)], ks[:r]...)
	}
	return ks
}

// ---------------------------------------------------------------- globals

var onReset []func()

// OnReset registers what gives package variables their initial values. The
// instrumenter calls it for every package, in the order of initialisation.
func OnReset(f ...func()) { onReset = append(onReset, f...) }

// Zero sets a variable to its zero value.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// ResetGlobals puts the code under test into the state of a new process.
func ResetGlobals() {
	for _, f := range onReset {
		func() {
			defer func() { recover() }()
			f()
		}()
	}
}
