//go:build !race

package vsched

import "unsafe"

const RaceEnabled = false

func Acquire(p unsafe.Pointer)      {}
func Release(p unsafe.Pointer)      {}
func ReleaseMerge(p unsafe.Pointer) {}
func raceErrors() int               { return 0 }
