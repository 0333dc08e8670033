// Package vsync replaces package sync in instrumented code. Primitives hand control over to the
// scheduler instead of blocking; real primitives underneath provide happens-before edges.
package vsync

import (
	"sync"

	"github.com/ava12/llx/zz_verif/vsched"
)

type (
	Locker    = sync.Locker
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// Mutex is a cooperative mutex.
type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock() {
	if !vsched.Active() {
		m.m.Lock()
		return
	}
	vsched.S()
	for !m.m.TryLock() {
		vsched.Blocked()
	}
}

func (m *Mutex) TryLock() bool {
	vsched.S()
	return m.m.TryLock()
}

func (m *Mutex) Unlock() {
	m.m.Unlock()
	vsched.Wake()
	vsched.S()
}

// RWMutex is a cooperative readers-writer mutex: waiting writers block new readers.
type RWMutex struct {
	m       sync.RWMutex
	waiting int
}

//go:norace
func (m *RWMutex) wait(d int) int {
	m.waiting += d
	return m.waiting
}

func (m *RWMutex) Lock() {
	if !vsched.Active() {
		m.m.Lock()
		return
	}
	vsched.S()
	if m.m.TryLock() {
		return
	}
	m.wait(1)
	defer m.wait(-1)
	for !m.m.TryLock() {
		vsched.Blocked()
	}
}

func (m *RWMutex) TryLock() bool {
	vsched.S()
	return m.m.TryLock()
}

func (m *RWMutex) Unlock() {
	m.m.Unlock()
	vsched.Wake()
	vsched.S()
}

func (m *RWMutex) RLock() {
	if !vsched.Active() {
		m.m.RLock()
		return
	}
	vsched.S()
	for m.wait(0) > 0 || !m.m.TryRLock() {
		vsched.Blocked()
	}
}

func (m *RWMutex) TryRLock() bool {
	vsched.S()
	return m.wait(0) == 0 && m.m.TryRLock()
}

func (m *RWMutex) RUnlock() {
	m.m.RUnlock()
	vsched.Wake()
	vsched.S()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for readers.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once is a cooperative sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var r T
	return func() T {
		o.Do(func() { r = f() })
		return r
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var r1 T1
	var r2 T2
	return func() (T1, T2) {
		o.Do(func() { r1, r2 = f() })
		return r1, r2
	}
}

// Pool always gives back the item that was put last.
type Pool struct {
	m     sync.Mutex
	items []any
	New   func() any
}

func (p *Pool) Get() any {
	vsched.S()
	p.m.Lock()
	n := len(p.items)
	if n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.m.Unlock()
		return x
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.m.Lock()
	p.items = append(p.items, x)
	p.m.Unlock()
	vsched.S()
}

// Map is sync.Map with yield points.
type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { vsched.S(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { vsched.S(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { vsched.S(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { vsched.S(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { vsched.S(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { vsched.S(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { vsched.S(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { vsched.S(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Range(f func(k, v any) bool)      { vsched.S(); m.m.Range(f) }
func (m *Map) Clear()                           { vsched.S(); m.m.Clear() }
