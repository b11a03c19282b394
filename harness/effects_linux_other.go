//go:build linux && !amd64

package main

import "syscall"

const sysSeccomp = 0

func dup2(from, to int) error { return syscall.ENOSYS }

func deniedCalls() (deny []uint32, arch, clone uint32) { return }
