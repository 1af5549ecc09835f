// Package vquiet replaces package sync inside xsync: locks that cooperate with the scheduler but are
// no scheduling points themselves (the entries of the map's methods are).
package vquiet

import (
	"unsafe"

	"verif/conc/vsched"
	"verif/conc/vsync"
)

type (
	Locker    = vsync.Locker
	RWMutex   = vsync.RWMutex
	Pool      = vsync.Pool
	Once      = vsync.Once
	WaitGroup = vsync.WaitGroup
	Map       = vsync.Map
	Cond      = vsync.Cond
)

func NewCond(l Locker) *Cond { return vsync.NewCond(l) }

// Mutex has the size of sync.Mutex, which the padded buckets count on.
type Mutex struct {
	held uint32
	_    uint32
}

//go:norace
func (m *Mutex) try() bool {
	if m.held != 0 {
		return false
	}
	m.held = 1
	return true
}

//go:norace
func (m *Mutex) drop() bool {
	if m.held == 0 {
		return false
	}
	m.held = 0
	return true
}

func (m *Mutex) Lock() {
	for !m.try() {
		vsched.Block(uintptr(unsafe.Pointer(m)))
	}
	vsched.Acquire(unsafe.Pointer(m))
}

func (m *Mutex) TryLock() bool {
	if !m.try() {
		return false
	}
	vsched.Acquire(unsafe.Pointer(m))
	return true
}

func (m *Mutex) Unlock() {
	vsched.Release(unsafe.Pointer(m))
	if !m.drop() && !vsched.Aborting() {
		panic("sync: unlock of unlocked mutex")
	}
	vsched.Wake(uintptr(unsafe.Pointer(m)))
}
