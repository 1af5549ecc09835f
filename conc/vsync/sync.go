// Package vsync replaces package sync in the instrumented code: the same API on top of vsched.
package vsync

import (
	"sync"
	"unsafe"

	"verif/conc/vsched"
)

type Locker = sync.Locker

// Mutex has the size of sync.Mutex, which the padded buckets of xsync count on.
type Mutex struct {
	held uint32
	_    uint32
}

//go:norace
func (m *Mutex) try() bool {
	if m.held != 0 {
		return false
	}
	m.held = 1
	return true
}

//go:norace
func (m *Mutex) drop() bool {
	if m.held == 0 {
		return false
	}
	m.held = 0
	return true
}

func (m *Mutex) Lock() {
	vsched.S()
	for !m.try() {
		vsched.Block(uintptr(unsafe.Pointer(m)))
	}
	vsched.Acquire(unsafe.Pointer(m))
}

func (m *Mutex) TryLock() bool {
	vsched.S()
	if !m.try() {
		return false
	}
	vsched.Acquire(unsafe.Pointer(m))
	return true
}

func (m *Mutex) Unlock() {
	vsched.S()
	vsched.Release(unsafe.Pointer(m))
	if !m.drop() && !vsched.Aborting() {
		panic("sync: unlock of unlocked mutex")
	}
	vsched.Wake(uintptr(unsafe.Pointer(m)))
}

// RWMutex lets no new reader in while a writer waits, as sync.RWMutex does.
type RWMutex struct {
	readers, writer, waiting int32
	rsem, wsem               int32
}

//go:norace
func (m *RWMutex) tryR() bool {
	if m.writer != 0 || m.waiting > 0 {
		return false
	}
	m.readers++
	return true
}

//go:norace
func (m *RWMutex) dropR() bool {
	if m.readers == 0 {
		return false
	}
	m.readers--
	return true
}

//go:norace
func (m *RWMutex) tryW() bool {
	if m.writer != 0 || m.readers > 0 {
		return false
	}
	m.writer = 1
	return true
}

//go:norace
func (m *RWMutex) wait(d int32) { m.waiting += d }

//go:norace
func (m *RWMutex) dropW() bool {
	if m.writer == 0 {
		return false
	}
	m.writer = 0
	return true
}

func (m *RWMutex) addr() uintptr { return uintptr(unsafe.Pointer(m)) }

func (m *RWMutex) RLock() {
	vsched.S()
	for !m.tryR() {
		vsched.Block(m.addr())
	}
	vsched.Acquire(unsafe.Pointer(&m.rsem))
}

func (m *RWMutex) TryRLock() bool {
	vsched.S()
	if !m.tryR() {
		return false
	}
	vsched.Acquire(unsafe.Pointer(&m.rsem))
	return true
}

func (m *RWMutex) RUnlock() {
	vsched.S()
	vsched.ReleaseMerge(unsafe.Pointer(&m.wsem))
	if !m.dropR() && !vsched.Aborting() {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	vsched.Wake(m.addr())
}

func (m *RWMutex) Lock() {
	vsched.S()
	if !m.tryW() {
		m.wait(1)
		for {
			vsched.Block(m.addr())
			if m.tryW() {
				break
			}
		}
		m.wait(-1)
	}
	vsched.Acquire(unsafe.Pointer(&m.rsem))
	vsched.Acquire(unsafe.Pointer(&m.wsem))
}

func (m *RWMutex) TryLock() bool {
	vsched.S()
	if !m.tryW() {
		return false
	}
	vsched.Acquire(unsafe.Pointer(&m.rsem))
	vsched.Acquire(unsafe.Pointer(&m.wsem))
	return true
}

func (m *RWMutex) Unlock() {
	vsched.S()
	vsched.Release(unsafe.Pointer(&m.rsem))
	if !m.dropW() && !vsched.Aborting() {
		panic("sync: Unlock of unlocked RWMutex")
	}
	vsched.Wake(m.addr())
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Cond.
type Cond struct {
	L   Locker
	seq uint64
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) read() uint64 { return c.seq }

//go:norace
func (c *Cond) bump() { c.seq++ }

func (c *Cond) Wait() {
	s := c.read()
	c.L.Unlock()
	for c.read() == s {
		vsched.Block(uintptr(unsafe.Pointer(c)))
	}
	vsched.Acquire(unsafe.Pointer(c))
	c.L.Lock()
}

// Signal may wake more than one waiter, which the contract of Cond allows callers to cope with.
func (c *Cond) Signal() { c.Broadcast() }

func (c *Cond) Broadcast() {
	vsched.S()
	vsched.ReleaseMerge(unsafe.Pointer(c))
	c.bump()
	vsched.Wake(uintptr(unsafe.Pointer(c)))
}

// Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// WaitGroup.
type WaitGroup struct{ n int64 }

//go:norace
func (w *WaitGroup) add(d int) int64 { w.n += int64(d); return w.n }

func (w *WaitGroup) Add(d int) {
	vsched.S()
	vsched.ReleaseMerge(unsafe.Pointer(w))
	if v := w.add(d); v < 0 {
		panic("sync: negative WaitGroup counter")
	} else if v == 0 {
		vsched.Wake(uintptr(unsafe.Pointer(w)))
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	vsched.S()
	for w.add(0) > 0 {
		vsched.Block(uintptr(unsafe.Pointer(w)))
	}
	vsched.Acquire(unsafe.Pointer(w))
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Go(func() { defer w.Done(); f() })
}

// Pool hands out the most recently returned item, the most adverse choice for a user that keeps
// using what it has returned. Only a hand-over orders the accesses of two users, as in sync.Pool.
type Pool struct {
	New   func() any
	items [64]*item
	n     int
	known bool
}

type item struct {
	v   any
	tok int
}

//go:norace
func (p *Pool) pop() *item {
	if p.n == 0 {
		return nil
	}
	p.n--
	it := p.items[p.n]
	p.items[p.n] = nil
	return it
}

//go:norace
func (p *Pool) push(it *item) {
	if p.n < len(p.items) {
		p.items[p.n] = it
		p.n++
	}
}

//go:norace
func (p *Pool) register() {
	if !p.known && npools < len(pools) {
		p.known = true
		pools[npools] = p
		npools++
	}
}

var (
	pools  [4096]*Pool
	npools int
)

//go:norace
func reset() {
	for i := 0; i < npools; i++ {
		p := pools[i]
		for j := 0; j < p.n; j++ {
			p.items[j] = nil
		}
		p.n = 0
		p.known = false
		pools[i] = nil
	}
	npools = 0
}

func init() { vsched.OnReset = append(vsched.OnReset, reset) }

func (p *Pool) Get() any {
	vsched.S()
	if it := p.pop(); it != nil {
		vsched.Acquire(unsafe.Pointer(&it.tok))
		return it.v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	vsched.S()
	p.register()
	it := &item{v: x}
	vsched.ReleaseMerge(unsafe.Pointer(&it.tok))
	p.push(it)
}

// Map is the real one with a scheduling point before every operation.
type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { vsched.S(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { vsched.S(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { vsched.S(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { vsched.S(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { vsched.S(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { vsched.S(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { vsched.S(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { vsched.S(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Range(f func(k, v any) bool)      { vsched.S(); m.m.Range(f) }
func (m *Map) Clear()                           { vsched.S(); m.m.Clear() }
