// Package simsync replaces sync in the instrumented code: blocking goes
// through the simulator's scheduler.
package simsync

import (
	"sync"

	"github.com/Harvey-OS/ninep/sim/simrt"
)

type Locker = sync.Locker

type Mutex struct{ locked bool }

func (m *Mutex) Lock() {
	if simrt.Exiting() {
		m.locked = true
		return
	}
	simrt.YieldPoint("lock?")
	for m.locked {
		simrt.Park("lock", func() bool { return !m.locked })
	}
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	if !m.locked && !simrt.Exiting() && !simrt.Killing() {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
}

type RWMutex struct {
	w bool
	r int
}

func (m *RWMutex) Lock() {
	if simrt.Exiting() {
		m.w = true
		return
	}
	simrt.YieldPoint("lock?")
	for m.w || m.r > 0 {
		simrt.Park("wlock", func() bool { return !m.w && m.r == 0 })
	}
	m.w = true
}
func (m *RWMutex) Unlock() {
	if !m.w && !simrt.Exiting() && !simrt.Killing() {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
}
func (m *RWMutex) RLock() {
	if simrt.Exiting() {
		m.r++
		return
	}
	simrt.YieldPoint("rlock?")
	for m.w {
		simrt.Park("rlock", func() bool { return !m.w })
	}
	m.r++
}
func (m *RWMutex) RUnlock() {
	if m.r <= 0 && !simrt.Exiting() && !simrt.Killing() {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
}
func (m *RWMutex) TryLock() bool {
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *RWMutex) TryRLock() bool {
	if m.w {
		return false
	}
	m.r++
	return true
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	for w.n > 0 && !simrt.Exiting() {
		simrt.Park("waitgroup", func() bool { return w.n <= 0 })
	}
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go("waitgroup.Go", func() { defer w.Done(); f() })
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

type Cond struct {
	L   Locker
	gen []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	ok := new(bool)
	c.gen = append(c.gen, ok)
	c.L.Unlock()
	for !*ok && !simrt.Exiting() {
		simrt.Park("cond", func() bool { return *ok })
	}
	c.L.Lock()
}
func (c *Cond) Signal() {
	if len(c.gen) > 0 {
		*c.gen[0] = true
		c.gen = c.gen[1:]
	}
}
func (c *Cond) Broadcast() {
	for _, g := range c.gen {
		*g = true
	}
	c.gen = nil
}

// Pool hands out the last item put: reuse is as early as it can be.
type Pool struct {
	New   func() any
	items []any
}

func (p *Pool) Get() any {
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) {
	if x != nil {
		p.items = append(p.items, x)
	}
}

type Map struct {
	m     map[any]any
	order []any
}

func (m *Map) Load(k any) (any, bool) {
	simrt.YieldPoint("map")
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) Store(k, v any) {
	simrt.YieldPoint("map")
	m.set(k, v)
}
func (m *Map) set(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.order = append(m.order, k)
	}
	m.m[k] = v
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	simrt.YieldPoint("map")
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.set(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	simrt.YieldPoint("map")
	x, ok := m.m[k]
	m.del(k)
	return x, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) del(k any) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i, x := range m.order {
		if x == k {
			m.order = append(m.order[:i:i], m.order[i+1:]...)
			break
		}
	}
}
func (m *Map) Swap(k, v any) (any, bool) {
	simrt.YieldPoint("map")
	x, ok := m.m[k]
	m.set(k, v)
	return x, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	simrt.YieldPoint("map")
	if x, ok := m.m[k]; ok && x == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	simrt.YieldPoint("map")
	if x, ok := m.m[k]; ok && x == o {
		m.del(k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	for _, k := range append([]any(nil), m.order...) {
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}
func (m *Map) Clear() { m.m, m.order = nil, nil }
