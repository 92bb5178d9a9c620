// Package ants is a stand-in for the worker pool: it owns the one source of
// scheduling nondeterminism of the algorithms. SubmitHook decides when (and on
// which goroutine) a submitted task runs.
package ants

import "sync"

// SubmitHook receives every submitted task. When nil, a task runs on its own goroutine.
var SubmitHook func(task func())

func submit(task func()) error {
	if h := SubmitHook; h != nil {
		h(task)
		return nil
	}
	go task()
	return nil
}

// Submit submits a task to the default pool.
func Submit(task func()) error { return submit(task) }

func Running() int { return 0 }
func Cap() int     { return 1 << 30 }
func Free() int    { return 1 << 30 }
func Release()     {}
func Reboot()      {}

// Pool, Option and the constructors exist so that code using an explicit pool still builds.
type Pool struct{}

type Option func()

func NewPool(size int, options ...Option) (*Pool, error) { return &Pool{}, nil }

func (p *Pool) Submit(task func()) error { return submit(task) }
func (p *Pool) Release()                 {}
func (p *Pool) Reboot()                  {}
func (p *Pool) Running() int             { return 0 }
func (p *Pool) Cap() int                 { return 1 << 30 }
func (p *Pool) Free() int                { return 1 << 30 }
func (p *Pool) Tune(int)                 {}

// PoolWithFunc mirrors the argument-taking pool.
type PoolWithFunc struct {
	f func(interface{})
	_ sync.Mutex
}

func NewPoolWithFunc(size int, f func(interface{}), options ...Option) (*PoolWithFunc, error) {
	return &PoolWithFunc{f: f}, nil
}

func (p *PoolWithFunc) Invoke(arg interface{}) error { return submit(func() { p.f(arg) }) }
func (p *PoolWithFunc) Release()                     {}
