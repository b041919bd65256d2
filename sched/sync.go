// Package zzsync stands in for package sync in a build of go-amino whose
// goroutines run one at a time, in an order that is chosen.  It is laid over
// the working tree when the harness is built (go build -overlay); nothing of
// it is in the repository.
package zzsync

import (
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sync"
	"syscall"
	"time"
)

// What needs no control.
type (
	Pool      = sync.Pool
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
	Locker    = sync.Locker
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

type task struct {
	ch   chan struct{}
	pred func() bool // what it waits for
	done bool
	prio int
}

var (
	g       sync.Mutex // guards everything here
	cond    = sync.NewCond(&g)
	active  bool // tasks run one at a time
	tasks   []*task
	ids     map[int]*task
	cur     *task
	rnd     *rand.Rand
	foreign bool // another goroutine took part
	steps   int
	period  int // preempts once in that many times, or 0 for priorities
	changes map[int]bool
	low     int
	over    chan struct{}
)

// Stats counts what was controlled.
var Stats struct{ Runs, Steps, GaveUp int }

// Every task has a thread of its own, which tells who calls.
func goid() int { return syscall.Gettid() }

// self is the task that calls, or nil.
func self() *task {
	if !active {
		return nil
	}
	t := ids[goid()]
	if t == nil {
		foreign = true
	}
	return t
}

// next picks the task to run, or nil.
func next() *task {
	var ready []*task
	for _, i := range rnd.Perm(len(tasks)) {
		t := tasks[i]
		if t.done {
			continue
		}
		if t.pred == nil || t.pred() {
			t.pred = nil
			ready = append(ready, t)
		}
	}
	if len(ready) == 0 {
		return nil
	}
	if period > 0 {
		return ready[0]
	}
	best := ready[0]
	for _, t := range ready {
		if t.prio > best.prio {
			best = t
		}
	}
	return best
}

func giveUp() {
	active = false
	Stats.GaveUp++
	for _, t := range tasks {
		if !t.done && t != cur {
			t.ch <- struct{}{}
		}
	}
	cond.Broadcast()
}

// hand gives the turn to a task.
func hand() {
	n := next()
	if n == nil {
		if !foreign {
			fmt.Println("HANG: deadlock")
			buf := make([]byte, 1<<16)
			fmt.Fprintf(os.Stderr, "HANG\n%s\n", buf[:runtime.Stack(buf, true)])
			os.Exit(9)
		}
		cur = nil
		giveUp()
		return
	}
	cur = n
	n.ch <- struct{}{}
}

// pause lets another task run, maybe.
func (t *task) pause() {
	steps++
	Stats.Steps++
	if period > 0 {
		if rnd.Intn(period) > 0 {
			return
		}
	} else {
		if !changes[steps] {
			return
		}
		low--
		t.prio = low
	}
	t.turn()
}

// turn waits for the turn to come back.
func (t *task) turn() {
	hand()
	g.Unlock()
	<-t.ch
	g.Lock()
}

// wait waits until pred has done what it is for.
func wait(pred func() bool) {
	g.Lock()
	defer g.Unlock()
	t := self()
	if t != nil {
		t.pause()
		if active {
			if pred() {
				return
			}
			t.pred = pred
			t.turn()
			if t.pred == nil {
				return
			}
			t.pred = nil // given up
		}
	}
	for !pred() {
		cond.Wait()
	}
}

func release(f func()) {
	g.Lock()
	defer g.Unlock()
	f()
	cond.Broadcast()
	if t := self(); t != nil {
		t.pause()
	}
}

// Yield is a place where another task may run.
func Yield() {
	g.Lock()
	defer g.Unlock()
	if t := self(); t != nil {
		t.pause()
	}
}

// Run runs the functions, one at a time.
func Run(fs []func(), seed int64) {
	g.Lock()
	rnd = rand.New(rand.NewSource(seed))
	period = []int{0, 0, 0, 2, 4, 10, 30}[rnd.Intn(7)]
	changes = map[int]bool{}
	for i := rnd.Intn(4); i > 0; i-- {
		changes[1+rnd.Intn(40*len(fs))] = true
	}
	low, steps, foreign = 0, 0, false
	tasks, ids, over = nil, map[int]*task{}, make(chan struct{})
	left := len(fs)
	var reg sync.WaitGroup
	prio := rnd.Perm(len(fs))
	for i, f := range fs {
		t, f := &task{ch: make(chan struct{}, 1), prio: 1 + prio[i]}, f
		tasks = append(tasks, t)
		reg.Add(1)
		go func() {
			runtime.LockOSThread()
			defer runtime.UnlockOSThread()
			id := goid()
			g.Lock()
			ids[id] = t
			g.Unlock()
			reg.Done()
			<-t.ch
			defer func() {
				g.Lock()
				defer g.Unlock()
				t.done = true
				left--
				if left == 0 {
					close(over)
				} else if active {
					hand()
				}
			}()
			f()
		}()
	}
	g.Unlock()
	reg.Wait()
	g.Lock()
	active = true
	Stats.Runs++
	hand()
	last := -1
	for {
		g.Unlock()
		select {
		case <-over:
			g.Lock()
			active = false
			g.Unlock()
			return
		case <-time.After(3 * time.Second):
		}
		g.Lock()
		if active && steps == last {
			giveUp() // the one that runs waits for something else
		}
		last = steps
	}
}

// Mutex is a sync.Mutex.
type Mutex struct{ held bool }

func (m *Mutex) TryLock() (ok bool) {
	release(func() {
		ok = !m.held
		m.held = true
	})
	return
}

func (m *Mutex) Lock() {
	wait(func() bool {
		if m.held {
			return false
		}
		m.held = true
		return true
	})
}

func (m *Mutex) Unlock() {
	release(func() {
		if !m.held {
			fatal("sync: unlock of unlocked mutex")
		}
		m.held = false
	})
}

func fatal(s string) {
	fmt.Fprintln(os.Stderr, "fatal error: "+s)
	os.Exit(2)
}

type reader struct{ ok bool }

// RWMutex is a sync.RWMutex: a writer that waits keeps new readers out, and
// those that wait get in when it is done.
type RWMutex struct {
	held    bool // by a writer, which may still wait for readers
	readers int
	queue   []*reader
}

func (m *RWMutex) Lock() {
	got := false
	wait(func() bool {
		if !got {
			if m.held {
				return false
			}
			m.held, got = true, true
		}
		return m.readers == 0
	})
}

func (m *RWMutex) TryLock() (ok bool) {
	release(func() {
		if ok = !m.held && m.readers == 0; ok {
			m.held = true
		}
	})
	return
}

func (m *RWMutex) Unlock() {
	release(func() {
		if !m.held || m.readers > 0 {
			fatal("sync: Unlock of unlocked RWMutex")
		}
		m.held = false
		for _, r := range m.queue {
			r.ok = true
			m.readers++
		}
		m.queue = nil
	})
}

func (m *RWMutex) RLock() {
	var w *reader
	wait(func() bool {
		if w != nil {
			return w.ok
		}
		if !m.held {
			m.readers++
			return true
		}
		w = &reader{}
		m.queue = append(m.queue, w)
		return false
	})
}

func (m *RWMutex) TryRLock() (ok bool) {
	release(func() {
		if ok = !m.held; ok {
			m.readers++
		}
	})
	return
}

func (m *RWMutex) RUnlock() {
	release(func() {
		if m.readers == 0 {
			fatal("sync: RUnlock of unlocked RWMutex")
		}
		m.readers--
	})
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is that of sync.RWMutex.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once is a sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	valid := false
	var p interface{}
	return func() {
		o.Do(func() {
			defer func() {
				if !valid {
					p = recover()
					panic(p)
				}
			}()
			f()
			valid = true
		})
		if !valid {
			panic(p)
		}
	}
}

// Map is a sync.Map.
type Map struct{ m sync.Map }

func (m *Map) Load(k interface{}) (v interface{}, ok bool) { defer Yield(); return m.m.Load(k) }
func (m *Map) Store(k, v interface{})                      { defer Yield(); m.m.Store(k, v) }
func (m *Map) Delete(k interface{})                        { defer Yield(); m.m.Delete(k) }
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	defer Yield()
	return m.m.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	defer Yield()
	return m.m.LoadAndDelete(k)
}
func (m *Map) Swap(k, v interface{}) (interface{}, bool) { defer Yield(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	defer Yield()
	return m.m.CompareAndSwap(k, o, n)
}
func (m *Map) CompareAndDelete(k, o interface{}) bool {
	defer Yield()
	return m.m.CompareAndDelete(k, o)
}
func (m *Map) Range(f func(k, v interface{}) bool) { m.m.Range(f) }
func (m *Map) Clear()                              { defer Yield(); m.m.Clear() }
