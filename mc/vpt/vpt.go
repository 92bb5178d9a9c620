// Package vpt holds the scheduling points that cmd/instr weaves into a copy of
// the code under test. Without a hook installed they do nothing.
package vpt

// PointHook is called before every instrumented statement.
var PointHook func(site int)

// GoHook starts a goroutine.
var GoHook func(f func())

// P is a scheduling point.
func P(site int) {
	if h := PointHook; h != nil {
		h(site)
	}
}

// Go starts f on a goroutine of its own.
func Go(f func()) {
	if h := GoHook; h != nil {
		h(f)
		return
	}
	go f()
}

// Self identifies the running goroutine.
func Self() uintptr

// Epoch separates executions: locks start afresh in each.
var Epoch int

// Mutex is a mutual exclusion lock made of a channel, so that a goroutine that waits
// for it is visibly blocked.
type Mutex struct {
	c     chan struct{}
	epoch int
}

//go:norace
func (m *Mutex) ch() chan struct{} {
	if m.c == nil || m.epoch != Epoch {
		m.c, m.epoch = make(chan struct{}, 1), Epoch
	}
	return m.c
}

func (m *Mutex) Lock() { m.ch() <- struct{}{} }
func (m *Mutex) Unlock() {
	select {
	case <-m.ch():
	default:
		panic("unlock of unlocked mutex")
	}
}
func (m *Mutex) TryLock() bool {
	select {
	case m.ch() <- struct{}{}:
		return true
	default:
		return false
	}
}

// RWMutex is a reader/writer lock whose waiters are visibly blocked. Readers exclude
// each other as well, which removes behaviours but adds none.
type RWMutex struct{ Mutex }

func (m *RWMutex) RLock()   { m.Lock() }
func (m *RWMutex) RUnlock() { m.Unlock() }

// Once runs a function once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}
