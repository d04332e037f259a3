"""Patch the Go 1.22 runtime/syscall sources for deterministic simulation.

Writes patched copies below OUT and returns the overlay map. Every replacement
must match exactly once: a different Go release fails loudly here instead of
building a simulator that silently is not one."""
import os, re

def patch(goroot, out, here):
    src = os.path.join(goroot, "src")
    ov = {}
    def load(rel):
        with open(os.path.join(src, rel)) as f:
            return f.read()
    def store(rel, text):
        p = os.path.join(out, rel.replace("/", "__"))
        with open(p, "w") as f:
            f.write(text)
        ov[os.path.join(src, rel)] = p
    def sub(text, old, new, count=1):
        n = text.count(old)
        if n != count:
            raise SystemExit("patchrt: expected %d x %r, found %d" % (count, old[:60], n))
        return text.replace(old, new)
    def infunc(text, header, old, new):
        i = text.index(header)
        j = text.index("\n}\n", i)
        body = text[i:j]
        if body.count(old) < 1:
            raise SystemExit("patchrt: %r not in %s" % (old, header))
        return text[:i] + body.replace(old, new, 1) + text[j:]

    t = load("runtime/runtime2.go")
    t = sub(t, "\tgcAssistBytes int64\n}\n", "\tgcAssistBytes int64\n\n\tsimon bool\n\tsimid uint32\n\tsimstall uint64\n}\n")
    # a run queue that does not overflow into the global one, which the
    # scheduler looks into at moments that are not ours
    t = sub(t, "\trunq     [256]guintptr\n", "\trunq     [16384]guintptr\n")
    store("runtime/runtime2.go", t)

    t = load("runtime/proc.go")
    t = infunc(t, "func newproc1(", "\tnewg.startpc = fn.fn\n", "\tnewg.startpc = fn.fn\n\tsimNewG(newg, callergp)\n")
    t = infunc(t, "func gdestroy(", "\tcasgstatus(gp, _Grunning, _Gdead)\n", "\tcasgstatus(gp, _Grunning, _Gdead)\n\tsimDeadG(gp)\n")
    t = infunc(t, "func runqput(", "\tif randomizeScheduler && next", "\tif sim.on {\n\t\tnext = false\n\t}\n\tif randomizeScheduler && next")
    t = infunc(t, "func runqget(", "\t// If there's a runnext", "\tif sim.on {\n\t\treturn simRunqget(pp)\n\t}\n\t// If there's a runnext")
    t = infunc(t, "func goschedImpl(", "\tlock(&sched.lock)\n\tglobrunqput(gp)\n\tunlock(&sched.lock)\n",
               "\tif sim.on && gp.simon {\n\t\trunqput(getg().m.p.ptr(), gp, false)\n\t} else {\n\t\tlock(&sched.lock)\n\t\tglobrunqput(gp)\n\t\tunlock(&sched.lock)\n\t}\n")
    t = sub(t, "batch *[256]guintptr", "batch *[16384]guintptr")
    t = infunc(t, "func runqputslow(", "[len(pp.runq)/2 + 1]*g", "[128 + 1]*g")
    t = infunc(t, "func runqputslow(", "\tn = n / 2\n\tif n != uint32(len(pp.runq)/2) {\n\t\tthrow(\"runqputslow: queue is not full\")\n\t}\n", "\tn = 128\n")
    # no sysmon: nothing preempts or retakes Ps behind the simulator's back
    t, n = re.subn(r'if GOARCH != "wasm" \{ // no threads on wasm yet, so no sysmon', 'if false {', t)
    if n == 0:
        t, n = re.subn(r'if haveSysmon \{', 'if false {', t)
    if n != 1:
        raise SystemExit("patchrt: sysmon start not found (%d)" % n)
    store("runtime/proc.go", t)

    t = load("runtime/lock_futex.go")
    t = sub(t, "func beforeIdle(int64, int64) (*g, bool) {\n", "func beforeIdle(now int64, pollUntil int64) (*g, bool) {\n\tif sim.on {\n\t\treturn simIdle(pollUntil)\n\t}\n")
    store("runtime/lock_futex.go", t)

    t = load("runtime/select.go")
    t = sub(t, "cheaprandn(uint32(norder + 1))", "simSelRandn(uint32(norder + 1))")
    store("runtime/select.go", t)

    t = load("runtime/rand.go")
    t = sub(t, "func rand() uint64 {\n", "func rand() uint64 {\n\tif sim.on && getg().simon {\n\t\treturn simRand()\n\t}\n")
    t = infunc(t, "func randinit(", "\tglobalRand.state.Init(*seed)", "\t*seed = [32]byte{7}\n\tglobalRand.state.Init(*seed)")
    t = infunc(t, "func bootstrapRandReseed(", "\tglobalRand.state.Reseed()\n", "")
    store("runtime/rand.go", t)

    t = load("runtime/mgcscavenge.go")
    t = infunc(t, "func bgscavenge(", "\tfor {\n", "\tfor {\n\t\tgopark(nil, nil, waitReasonZero, traceBlockGeneric, 1)\n")
    store("runtime/mgcscavenge.go", t)

    t = load("runtime/time_nofake.go")
    t = sub(t, "\treturn nanotime1()\n", "\tif sim.on {\n\t\treturn sim.mono\n\t}\n\treturn nanotime1()\n")
    store("runtime/time_nofake.go", t)
    ov[os.path.join(src, "runtime/timeasm.go")] = ""
    t = load("runtime/time_linux_amd64.s")
    t = sub(t, "TEXT time·now<ABIInternal>(SB)", "TEXT runtime·simRealNow<ABIInternal>(SB)")
    store("runtime/time_linux_amd64.s", t)
    ov[os.path.join(src, "runtime/zz_sim.go")] = os.path.join(here, "rt/zz_sim.go")
    ov[os.path.join(src, "runtime/zz_time.go")] = os.path.join(here, "rt/zz_time.go")
    ov[os.path.join(src, "syscall/zz_sys.go")] = os.path.join(here, "rt/zz_sys.go")

    # what simulated code does to the process and the world around it
    def gate(text, header, cond):
        return sub(text, header, header + cond)
    t = load("runtime/print.go")
    t = infunc(t, "func gwrite(", "\t\twriteErr(b)\n", "\t\tif gp == nil || gp.m.dying > 0 || !simTouch(simTouchPrint) {\n\t\t\twriteErr(b)\n\t\t}\n")
    store("runtime/print.go", t)
    t = load("runtime/debug.go")
    t = gate(t, "func GOMAXPROCS(n int) int {\n", "\tif n > 0 && simTouch(simTouchProcs) {\n\t\treturn int(gomaxprocs)\n\t}\n")
    store("runtime/debug.go", t)
    t = load("runtime/mgcpacer.go")
    t = gate(t, "func setGCPercent(in int32) (out int32) {\n", "\tif simTouch(simTouchGC) {\n\t\treturn gcController.gcPercent.Load()\n\t}\n")
    t = gate(t, "func setMemoryLimit(in int64) (out int64) {\n", "\tif in >= 0 && simTouch(simTouchGC) {\n\t\treturn gcController.memoryLimit.Load()\n\t}\n")
    store("runtime/mgcpacer.go", t)
    t = load("runtime/runtime.go")
    t = gate(t, "func syscall_Exit(code int) {\n", "\tif sim.on && getg().simon {\n\t\tthrow(\"the whole process was ended by a computation\")\n\t}\n")
    store("runtime/runtime.go", t)
    t = load("runtime/rdebug.go")
    t = gate(t, "func setMaxStack(in int) (out int) {\n", "\tif simTouch(simTouchLimits) {\n\t\treturn int(maxstacksize)\n\t}\n")
    store("runtime/rdebug.go", t)
    t = load("runtime/sigqueue.go")
    for f in ("enable", "disable", "ignore"):
        t = gate(t, "func signal_%s(s uint32) {\n" % f, "\tif simTouch(simTouchSignals) {\n\t\treturn\n\t}\n")
    t = gate(t, "func signal_recv() uint32 {\n", "\tif sim.on && getg().simon {\n\t\tgopark(nil, nil, waitReasonZero, traceBlockGeneric, 1)\n\t}\n")
    store("runtime/sigqueue.go", t)

    def sysgate(text, fn, op, what):
        i = text.index("func %s(" % fn)
        k = text.index("{\n", i) + 2
        if "err error)" in text[i:k]:
            c = "\tif err = simGate(%s, %s); err != nil {\n\t\treturn\n\t}\n"
        else:
            c = "\tif err := simGate(%s, %s); err != nil {\n\t\treturn err\n\t}\n"
        return text[:k] + c % ('"%s"' % op, what) + text[k:]

    t = load("syscall/syscall_unix.go")
    h = "\tif SimDisk != nil {\n\t\tif %s, handled := SimDisk.%s; handled {\n\t\t\treturn %s\n\t\t}\n\t}\n"
    t = sub(t, "\tn, err = read(fd, p)\n", h % ("n, err", "Read(fd, p)", "n, err") + "\tn, err = read(fd, p)\n")
    t = sub(t, "\tn, err = pread(fd, p, offset)\n", h % ("n, err", "Pread(fd, p, offset)", "n, err") + "\tn, err = pread(fd, p, offset)\n")
    for hd in ("func Write(fd int, p []byte) (n int, err error) {\n", "func Pwrite(fd int, p []byte, offset int64) (n int, err error) {\n"):
        t = gate(t, hd, "\tif simGate(\"write\", simFd(fd)) != nil {\n\t\treturn len(p), nil\n\t}\n")
    t = gate(t, "func Read(fd int, p []byte) (n int, err error) {\n", "\tif fd == 0 && simGate(\"read\", simFd(fd)) != nil {\n\t\treturn 0, nil\n\t}\n")
    t = sysgate(t, "Socket", "connect", '"a network socket"')
    store("syscall/syscall_unix.go", t)

    og = "\tif err = simGate(simOpenOp(%s), path); err != nil {\n\t\treturn -1, err\n\t}\n"
    t = load("syscall/syscall_linux.go")
    hd = "func Open(path string, mode int, perm uint32) (fd int, err error) {\n"
    t = sub(t, hd, hd + h % ("fd, err", "Open(path, mode, perm)", "fd, err") + og % "mode")
    hd = "func Openat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {\n"
    t = sub(t, hd, hd + h % ("fd, err", "Open(path, flags, mode)", "fd, err") + og % "flags")
    for f, op, what in (("Chmod", "chmod", "path"), ("Chown", "chown", "path"), ("Link", "link", "newpath"), ("Mkdir", "mkdir", "path"),
                        ("Mknod", "mknod", "path"), ("Rename", "rename", "newpath"), ("Rmdir", "remove", "path"), ("Symlink", "link", "newpath"),
                        ("Unlink", "remove", "path"), ("Unlinkat", "remove", "path"), ("Utimes", "touch", "path"), ("UtimesNano", "touch", "path"),
                        ("Pipe2", "open", '"a pipe"'), ("Fchmodat", "chmod", "path"), ("Mount", "mount", "target")):
        t = sysgate(t, f, op, what)
    store("syscall/syscall_linux.go", t)

    t = load("syscall/syscall_linux_amd64.go")
    for f in ("Stat", "Lstat"):
        hd = "func %s(path string, stat *Stat_t) (err error) {\n" % f
        t = sub(t, hd, hd + h % ("err", "Stat(path, stat)", "err"))
    store("syscall/syscall_linux_amd64.go", t)

    t = load("syscall/exec_unix.go")
    t = sysgate(t, "forkExec", "start", "argv0")
    t = sysgate(t, "Exec", "start", "argv0")
    store("syscall/exec_unix.go", t)
    t = load("syscall/rlimit.go")
    t = sysgate(t, "Setrlimit", "limit", '"the process"')
    store("syscall/rlimit.go", t)

    t = load("syscall/zsyscall_linux_amd64.go")
    for f, op, what in (("Chdir", "chdir", "path"), ("Fchdir", "chdir", '"by descriptor"'), ("Chroot", "chroot", "path"), ("Dup2", "redirect", "simFd(newfd)"),
                        ("Dup3", "redirect", "simFd(newfd)"), ("Fchmod", "chmod", "simFd(fd)"), ("Fchown", "chown", "simFd(fd)"), ("Kill", "kill", '"a process"'),
                        ("Setpriority", "setpriority", '"the process"'), ("Ftruncate", "truncate", "simFd(fd)"), ("Truncate", "truncate", "path")):
        t = sysgate(t, f, op, what)
    # as if there were always room for more
    t = infunc(t, "func Getrlimit(", "\treturn", "\tif SimGate != nil && simInside() {\n\t\trlim.Cur = rlim.Max / 2\n\t}\n\treturn")
    t = gate(t, "func Umask(mask int) (oldmask int) {\n", "\tif simGate(\"umask\", \"the process\") != nil {\n\t\treturn 0022\n\t}\n")
    hd = "func Close(fd int) (err error) {\n"
    t = sub(t, hd, hd + h % ("err", "Close(fd)", "err") + "\tif uint(fd) < 3 && simGate(\"close\", simFd(fd)) != nil {\n\t\treturn nil\n\t}\n")
    hd = "func Fstat(fd int, stat *Stat_t) (err error) {\n"
    t = sub(t, hd, hd + h % ("err", "Fstat(fd, stat)", "err"))
    hd = "func Seek(fd int, offset int64, whence int) (off int64, err error) {\n"
    t = sub(t, hd, hd + h % ("off, err", "Seek(fd, offset, whence)", "off, err"))
    store("syscall/zsyscall_linux_amd64.go", t)
    return ov
