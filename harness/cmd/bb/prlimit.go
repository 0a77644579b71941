package main

import (
	"syscall"
	"unsafe"
)

type rlimit struct{ Cur, Max uint64 }

// prlimit sets a limit of a process started here.
func prlimit(pid, what int, l *rlimit) error {
	if _, _, e := syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(pid), uintptr(what), uintptr(unsafe.Pointer(l)), 0, 0, 0); e != 0 {
		return e
	}
	return nil
}
