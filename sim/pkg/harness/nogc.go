package harness

import (
	"reflect"
	"runtime"
	"syscall"
	"unsafe"
)

// nopGC makes runtime.GC return at once. The libraries call it between steps,
// and each call makes the runtime zero their 256 MB scratch buffers anew; the
// workers run without collection and are restarted instead. Nothing depends
// on it: where it does not work, runs are slower.
func nopGC() {
	if runtime.GOARCH != "amd64" {
		return
	}
	pc := reflect.ValueOf(runtime.GC).Pointer()
	page := uintptr(syscall.Getpagesize())
	start := pc &^ (page - 1)
	b := unsafe.Slice((*byte)(unsafe.Pointer(start)), page)
	if syscall.Mprotect(b, syscall.PROT_READ|syscall.PROT_WRITE|syscall.PROT_EXEC) != nil {
		return
	}
	b[pc-start] = 0xc3 // RET
	syscall.Mprotect(b, syscall.PROT_READ|syscall.PROT_EXEC)
}
