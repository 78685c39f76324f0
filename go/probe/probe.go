// Package probe asks the C++ side what it has served.
package probe

/*
#cgo LDFLAGS: -lMllmSdkC
#include "c20_probe.h"
#include <stdlib.h>
*/
import "C"
import "unsafe"

func Served() int { return int(C.vh20_served()) }
func Active() int { return int(C.vh20_active()) }

// Leftover: after the stop, how many requests have responses nobody fetched.
func Leftover() (int, string) {
	buf := (*C.char)(C.calloc(1, 200))
	n := C.vh20_leftover(buf, 200)
	s := C.GoString(buf)
	C.free(unsafe.Pointer(buf))
	return int(n), s
}
