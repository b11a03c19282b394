package main

import "syscall"

const sysSeccomp = 317

func dup2(from, to int) error { return syscall.Dup2(from, to) }

func deniedCalls() (deny []uint32, arch, clone uint32) {
	for _, n := range []int{
		syscall.SYS_OPEN, syscall.SYS_OPENAT, 437 /* openat2 */, syscall.SYS_CREAT, syscall.SYS_STAT, syscall.SYS_LSTAT, 262 /* newfstatat */, 332, /* statx */
		syscall.SYS_ACCESS, syscall.SYS_FACCESSAT, 439 /* faccessat2 */, syscall.SYS_READLINK, syscall.SYS_READLINKAT, syscall.SYS_GETDENTS, syscall.SYS_GETDENTS64,
		syscall.SYS_UNLINK, syscall.SYS_UNLINKAT, syscall.SYS_RENAME, syscall.SYS_RENAMEAT, 316 /* renameat2 */, syscall.SYS_MKDIR, syscall.SYS_MKDIRAT, syscall.SYS_RMDIR,
		syscall.SYS_LINK, syscall.SYS_LINKAT, syscall.SYS_SYMLINK, syscall.SYS_SYMLINKAT, syscall.SYS_MKNOD, syscall.SYS_MKNODAT, syscall.SYS_CHMOD, syscall.SYS_FCHMOD,
		syscall.SYS_FCHMODAT, syscall.SYS_CHOWN, syscall.SYS_FCHOWN, syscall.SYS_LCHOWN, syscall.SYS_FCHOWNAT, syscall.SYS_TRUNCATE, syscall.SYS_FTRUNCATE,
		syscall.SYS_CHDIR, syscall.SYS_FCHDIR, syscall.SYS_CHROOT, syscall.SYS_UMASK, syscall.SYS_MOUNT, syscall.SYS_UTIME, syscall.SYS_UTIMES, syscall.SYS_UTIMENSAT, syscall.SYS_FUTIMESAT,
		syscall.SYS_DUP, syscall.SYS_DUP2, syscall.SYS_DUP3, syscall.SYS_PIPE, syscall.SYS_PIPE2, 319 /* memfd_create */, syscall.SYS_INOTIFY_INIT1, 425, /* io_uring_setup */
		syscall.SYS_SOCKET, syscall.SYS_SOCKETPAIR, syscall.SYS_CONNECT, syscall.SYS_BIND, syscall.SYS_LISTEN, syscall.SYS_ACCEPT, syscall.SYS_ACCEPT4, syscall.SYS_SENDTO, syscall.SYS_SENDMSG,
		syscall.SYS_EXECVE, 322 /* execveat */, syscall.SYS_FORK, syscall.SYS_VFORK, 435 /* clone3 */, syscall.SYS_KILL, syscall.SYS_PTRACE, syscall.SYS_WAIT4,
		syscall.SYS_SETRLIMIT, syscall.SYS_PRLIMIT64, syscall.SYS_SETPRIORITY, syscall.SYS_SCHED_SETAFFINITY, syscall.SYS_SCHED_SETSCHEDULER, syscall.SYS_PERSONALITY,
		syscall.SYS_SETUID, syscall.SYS_SETGID, syscall.SYS_SETRESUID, syscall.SYS_SETRESGID, syscall.SYS_SETSID, syscall.SYS_SETPGID, syscall.SYS_ALARM, syscall.SYS_SETITIMER,
		syscall.SYS_SETHOSTNAME, syscall.SYS_SETTIMEOFDAY, syscall.SYS_CLOCK_SETTIME, syscall.SYS_SHMGET,
	} {
		deny = append(deny, uint32(n))
	}
	return deny, 0xC000003E, syscall.SYS_CLONE
}
