package syscall

// SimDisk, when set, may take over a file system call. handled=false passes the
// call to the operating system.
type SimDiskHook interface {
	Open(path string, mode int, perm uint32) (fd int, err error, handled bool)
	Read(fd int, p []byte) (n int, err error, handled bool)
	Pread(fd int, p []byte, off int64) (n int, err error, handled bool)
	Fstat(fd int, st *Stat_t) (err error, handled bool)
	Stat(path string, st *Stat_t) (err error, handled bool)
	Seek(fd int, off int64, whence int) (n int64, err error, handled bool)
	Close(fd int) (err error, handled bool)
}

var SimDisk SimDiskHook

// SimGate, when set, is asked before a simulated goroutine writes, creates,
// removes, connects or starts anything in the real world. An error refuses it.
var SimGate func(op, what string) error

func simInside() bool // in the runtime

func simGate(op, what string) error {
	if SimGate != nil && simInside() {
		return SimGate(op, what)
	}
	return nil
}

func simFd(fd int) string {
	switch fd {
	case 0:
		return "standard input"
	case 1:
		return "standard output"
	case 2:
		return "standard error"
	}
	return "a file"
}

func simOpenOp(mode int) string {
	if mode&(O_WRONLY|O_RDWR|O_CREAT|O_TRUNC|O_APPEND) != 0 {
		return "create"
	}
	return "open"
}
