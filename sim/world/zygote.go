// Reference results come from processes that did nothing else. Starting a
// process afresh for each costs ten milliseconds, so a helper process that has
// done nothing but start up forks a copy of itself for every reference.
package main

import (
	"encoding/binary"
	"io"
	"os"
	"os/exec"
	"syscall"
	"time"
	"unsafe"
)

type zygote struct {
	in  io.WriteCloser
	out io.ReadCloser
}

var helper *zygote
var helperBroken bool

// askHelper has the reference for key k written to file out.
func askHelper(k, out string) bool {
	if helperBroken {
		return false
	}
	if helper == nil {
		cmd := exec.Command(os.Args[0], "refs")
		cmd.Env = os.Environ()
		cmd.Stderr = os.Stderr
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		in, err1 := cmd.StdinPipe()
		res, err2 := cmd.StdoutPipe()
		if err1 != nil || err2 != nil || cmd.Start() != nil {
			helperBroken = true
			return false
		}
		helper = &zygote{in, res}
	}
	msg := binary.LittleEndian.AppendUint32(nil, uint32(len(k)))
	msg = binary.LittleEndian.AppendUint32(msg, uint32(len(out)))
	msg = append(append(msg, k...), out...)
	var ans [1]byte
	if _, err := helper.in.Write(msg); err != nil {
		helperBroken = true
		return false
	}
	if _, err := io.ReadFull(helper.out, ans[:]); err != nil {
		helperBroken = true
		return false
	}
	return ans[0] == 'y'
}

func readFull(fd int, b []byte) bool {
	for len(b) > 0 {
		n, err := syscall.Read(fd, b)
		if err == syscall.EINTR {
			continue
		}
		if err != nil || n <= 0 {
			return false
		}
		b = b[n:]
	}
	return true
}

func helperMain() {
	for {
		var h [8]byte
		if !readFull(0, h[:]) {
			os.Exit(0)
		}
		k := make([]byte, binary.LittleEndian.Uint32(h[:]))
		out := make([]byte, binary.LittleEndian.Uint32(h[4:]))
		if !readFull(0, k) || !readFull(0, out) {
			os.Exit(0)
		}
		pid, _, no := syscall.RawSyscall(syscall.SYS_FORK, 0, 0, 0)
		if no == 0 && pid == 0 {
			syscall.RawSyscall(syscall.SYS_PRCTL, syscall.PR_SET_PDEATHSIG, uintptr(syscall.SIGKILL), 0)
			refMain(string(k), string(out))
			syscall.RawSyscall(syscall.SYS_EXIT_GROUP, 0, 0, 0)
		}
		ans := []byte{'n'}
		if no == 0 {
			deadline := time.Now().Add(20 * time.Second)
			nap := 50 * time.Microsecond
			for {
				var st int32
				got, _, no := syscall.RawSyscall6(syscall.SYS_WAIT4, pid, uintptr(unsafe.Pointer(&st)), syscall.WNOHANG, 0, 0, 0)
				if no == 0 && got == pid {
					if st == 0 {
						ans[0] = 'y'
					}
					break
				}
				if time.Now().After(deadline) || no != 0 && no != syscall.EINTR {
					syscall.Kill(int(pid), syscall.SIGKILL)
					syscall.RawSyscall6(syscall.SYS_WAIT4, pid, 0, 0, 0, 0, 0)
					break
				}
				ts := syscall.NsecToTimespec(int64(nap))
				syscall.RawSyscall(syscall.SYS_NANOSLEEP, uintptr(unsafe.Pointer(&ts)), 0, 0)
				if nap < time.Millisecond {
					nap += nap / 8
				}
			}
		}
		if _, err := syscall.Write(1, ans); err != nil {
			os.Exit(0)
		}
	}
}
