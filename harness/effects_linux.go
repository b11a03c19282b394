package main

import (
	"fmt"
	"os"
	"runtime"
	"strings"
	"syscall"
	"unsafe"
)

func getwd() (string, error) {
	b := make([]byte, 4096)
	n, err := syscall.Getcwd(b)
	if err != nil {
		return "", err
	}
	return string(b[:n]), nil
}

var statusFile *os.File

// signals renders the signals that the process blocks, ignores and catches.
func signals() string {
	if statusFile == nil {
		return ""
	}
	b := make([]byte, 8192)
	n, _ := syscall.Pread(int(statusFile.Fd()), b, 0)
	if n < 0 {
		return ""
	}
	var out []string
	for _, l := range strings.Split(string(b[:n]), "\n") {
		for _, k := range []string{"SigIgn", "SigCgt", "NoNewPrivs", "Umask"} {
			if strings.HasPrefix(l, k) {
				out = append(out, l)
			}
		}
	}
	return strings.Join(out, "\n")
}

// watchEffects prepares the process: standard output goes to a file in memory,
// standard error stays the file it is, and the system calls below end the
// process from now on.
func watchEffects(dir string, filter bool) (*effectsState, error) {
	out, err := os.CreateTemp(dir, "stdout-")
	if err != nil {
		return nil, err
	}
	syscall.Unlink(out.Name())
	if err := dup2(int(out.Fd()), 1); err != nil {
		return nil, err
	}
	var st syscall.Stat_t
	if err := syscall.Fstat(2, &st); err != nil || st.Mode&syscall.S_IFMT != syscall.S_IFREG {
		e, err := os.CreateTemp(dir, "stderr-")
		if err != nil {
			return nil, err
		}
		syscall.Unlink(e.Name())
		if err := dup2(int(e.Fd()), 2); err != nil {
			return nil, err
		}
	}
	read2, err := os.Open("/proc/self/fd/2")
	if err != nil {
		return nil, err
	}
	read1, err := os.Open("/proc/self/fd/1")
	if err != nil {
		return nil, err
	}
	if statusFile, err = os.Open("/proc/self/status"); err != nil {
		return nil, err
	}
	e := &effectsState{}
	at := func(fd int) int64 {
		n, err := syscall.Seek(fd, 0, 1)
		if err != nil {
			return -1
		}
		return n
	}
	e.fds = func() (int64, int64) { return at(1), at(2) }
	e.text = func() string {
		var s string
		for i, f := range []*os.File{read1, read2} {
			from := []int64{e.out, e.err}[i]
			b := make([]byte, 2000)
			n, _ := syscall.Pread(int(f.Fd()), b, from)
			if n > 0 {
				s += string(b[:n])
			}
		}
		return s
	}
	e.out, e.err = e.fds()
	if e.out < 0 || e.err < 0 {
		return nil, fmt.Errorf("standard output and error cannot be watched")
	}
	e.filtered = filter && filterCalls()
	return e, nil
}

type bpf struct {
	code   uint16
	jt, jf uint8
	k      uint32
}

type bpfProg struct {
	n uint16
	p *bpf
}

// filterCalls makes the kernel end the process at system calls that open,
// start, connect or change something.
func filterCalls() bool {
	deny, arch, clone := deniedCalls()
	if len(deny) == 0 {
		return false
	}
	const (
		load  = 0x20 // BPF_LD | BPF_W | BPF_ABS
		jeq   = 0x15
		jset  = 0x45
		ret   = 0x06
		allow = 0x7FFF0000
		trap  = 0x00030000
	)
	p := []bpf{
		{load, 0, 0, 4}, // architecture
		{jeq, 1, 0, arch},
		{ret, 0, 0, trap},
		{load, 0, 0, 0}, // number
	}
	for _, n := range deny {
		p = append(p, bpf{jeq, 0, 1, n}, bpf{ret, 0, 0, trap})
	}
	p = append(p,
		bpf{jeq, 1, 0, clone},
		bpf{ret, 0, 0, allow},
		bpf{load, 0, 0, 16},
		bpf{jset, 0, 1, 0x10000}, // a thread
		bpf{ret, 0, 0, allow},
		bpf{ret, 0, 0, trap})
	prog := bpfProg{uint16(len(p)), &p[0]}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	if _, _, e := syscall.RawSyscall6(syscall.SYS_PRCTL, 38, 1, 0, 0, 0, 0); e != 0 { // PR_SET_NO_NEW_PRIVS
		return false
	}
	const tsync = 1
	r, _, e := syscall.RawSyscall(sysSeccomp, 1, tsync, uintptr(unsafe.Pointer(&prog)))
	runtime.KeepAlive(p)
	return e == 0 && r == 0
}
