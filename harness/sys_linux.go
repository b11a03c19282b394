package main

import (
	"syscall"
	"time"
)

func gettid() int { return syscall.Gettid() }

// threadTime is the CPU time of the calling thread.
func threadTime() time.Duration {
	var u syscall.Rusage
	if syscall.Getrusage(1, &u) != nil { // RUSAGE_THREAD
		return 0
	}
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}
