package vsched

import (
	"fmt"
	"slices"
	"sync"
)

// A Sched runs threads one at a time and decides at every point which one goes on. The race
// detector doesn't see its handovers, so that it judges the code by its own locks only.
type Sched struct {
	Prefix    []int // the threads chosen at the first points with a choice
	Decisions []Decision
	threads   []*thread
	cur       *thread
	main      chan struct{}
	Points    int
	Deadlock  string
}

// A Decision is a point with a choice.
type Decision struct {
	Cur     int // the thread that was running
	Enabled []int
	Chosen  int
}

// Preempts tells whether going on with the thread takes the processor from one that could run.
func (d Decision) Preempts(id int) bool { return id != d.Cur && slices.Contains(d.Enabled, d.Cur) }

//go:norace
func (s *Sched) choose(cur int, enabled []int) int {
	id := enabled[0]
	for i := 0; i < len(enabled); i++ {
		if enabled[i] == cur {
			id = cur
		}
	}
	if n := len(s.Decisions); n < len(s.Prefix) {
		for i := 0; i < len(enabled); i++ {
			if enabled[i] == s.Prefix[n] {
				id = s.Prefix[n]
			}
		}
	}
	s.Decisions = append(s.Decisions, Decision{cur, enabled, id})
	return id
}

type thread struct {
	id      int
	wake    chan struct{}
	done    bool
	waiting func() bool // tells whether the thread still can't go on
	what    string
}

// active is the scheduler of the running exploration, if any.
var active *Sched

//go:norace
func (s *Sched) enabled() []int {
	var out []int
	for i := 0; i < len(s.threads); i++ {
		t := s.threads[i]
		if t.done || t.waiting != nil && t.waiting() {
			continue
		}
		out = append(out, t.id)
	}
	return out
}

// next hands over to another thread and returns when the calling one is to go on.
//
//go:norace
func (s *Sched) next(me *thread) {
	en := s.enabled()
	if len(en) == 0 {
		all := true
		for i := 0; i < len(s.threads); i++ {
			if !s.threads[i].done {
				all = false
				s.Deadlock += fmt.Sprintf("thread %d waits for %s; ", i, s.threads[i].what)
			}
		}
		if all {
			s.Deadlock = ""
		}
		s.main <- struct{}{}
		if !me.done {
			select {} // never to go on
		}
		return
	}
	id := en[0]
	if len(en) > 1 {
		id = s.choose(me.id, en)
	}
	t := s.threads[id]
	s.cur = t
	if t == me {
		return
	}
	t.wake <- struct{}{}
	if !me.done {
		<-me.wake
	}
}

// Point is where another thread may go on.
//
//go:norace
func Point() {
	s := active
	if s == nil {
		return
	}
	quiet()
	s.Points++
	s.next(s.cur)
	unquiet()
}

// wait is a point after which the thread goes on only once f returns false.
//
//go:norace
func wait(what string, f func() bool) {
	s := active
	quiet()
	s.Points++
	me := s.cur
	me.waiting, me.what = f, what
	s.next(me)
	me.waiting = nil
	unquiet()
}

// Run runs the functions as threads until all have ended or none can go on.
//
//go:norace
func (s *Sched) Run(fs ...func()) {
	s.main = make(chan struct{}, 1)
	var wg sync.WaitGroup
	for i, f := range fs {
		t := &thread{id: i, wake: make(chan struct{}, 1)}
		s.threads = append(s.threads, t)
		wg.Add(1)
		go body(s, t, f, &wg)
	}
	active = s
	quiet()
	s.cur = s.threads[s.choose(-1, s.enabled())]
	s.cur.wake <- struct{}{}
	<-s.main
	active = nil
	unquiet()
	if s.Deadlock == "" {
		wg.Wait()
	}
}

//go:norace
func body(s *Sched, t *thread, f func(), wg *sync.WaitGroup) {
	quiet()
	<-t.wake
	unquiet()
	f()
	quiet()
	t.done = true
	s.next(t)
	unquiet()
	wg.Done()
}

// Mutex stands in for sync.Mutex. Under the scheduler the real lock is only taken when it is
// free, for the race detector to see it.
type Mutex struct {
	real sync.Mutex
	held bool
}

//go:norace
func (m *Mutex) Lock() {
	if active != nil {
		wait("a lock", func() bool { return isHeld(m) })
	}
	m.real.Lock()
	m.held = true
}

//go:norace
func isHeld(m *Mutex) bool { return m.held }

//go:norace
func (m *Mutex) TryLock() bool {
	Point()
	if !m.real.TryLock() {
		return false
	}
	m.held = true
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	m.held = false
	m.real.Unlock()
}

// RWMutex stands in for sync.RWMutex.
type RWMutex struct {
	real    sync.RWMutex
	count   sync.Mutex
	writer  bool
	readers int
}

//go:norace
func (m *RWMutex) Lock() {
	if active != nil {
		wait("a write lock", func() bool { return isBusy(m) })
	}
	m.real.Lock()
	m.writer = true
}

//go:norace
func (m *RWMutex) RLock() {
	if active != nil {
		wait("a read lock", func() bool { return hasWriter(m) })
	}
	m.real.RLock()
	m.add(1)
}

//go:norace
func (m *RWMutex) add(n int) {
	quiet()
	m.count.Lock()
	m.readers += n
	m.count.Unlock()
	unquiet()
}

//go:norace
func isBusy(m *RWMutex) bool { return m.writer || m.readers > 0 }

//go:norace
func hasWriter(m *RWMutex) bool { return m.writer }

//go:norace
func (m *RWMutex) Unlock() {
	m.writer = false
	m.real.Unlock()
}

//go:norace
func (m *RWMutex) RUnlock() {
	m.add(-1)
	m.real.RUnlock()
}

//go:norace
func (m *RWMutex) TryLock() bool {
	Point()
	if !m.real.TryLock() {
		return false
	}
	m.writer = true
	return true
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	Point()
	if !m.real.TryRLock() {
		return false
	}
	m.add(1)
	return true
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is like that of sync.RWMutex.
func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

// Once stands in for sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}
