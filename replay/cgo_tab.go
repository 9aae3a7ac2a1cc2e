package cgo

// #include <stdint.h>
// #include <ubc_check.h>
import "C"

import "unsafe"

func vEntry(i int) (e [86]uint32) {
	p := unsafe.Add(unsafe.Pointer(&C.sha1_dvs), i*344)
	copy(e[:], (*[86]uint32)(p)[:])
	return
}
