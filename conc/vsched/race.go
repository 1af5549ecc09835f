//go:build race

package vsched

import (
	"runtime"
	"unsafe"
)

const RaceEnabled = true

func Acquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func Release(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func ReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func raceErrors() int               { return runtime.RaceErrors() }
