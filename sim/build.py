"""Build the simulator from /repo's current working tree."""
import json, os, subprocess, sys, hashlib, shutil, time, fcntl
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import patchrt

REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
GOBIN = "/usr/lib/go-1.22/bin/go"

def env():
    e = dict(os.environ)
    e.update(GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOTOOLCHAIN="local", GOPROXY="off",
             GOFLAGS="-mod=readonly -buildvcs=false", GOWORK="off", CGO_ENABLED="0",
             GOCACHE=os.path.join(BUILD, "gocache"), PATH="/usr/lib/go-1.22/bin:/usr/bin:/bin")
    e.pop("GOROOT", None)
    return e

class BuildError(Exception):
    pass

def run(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    return p.returncode, p.stdout, p.stderr

def build(tag="main", verbose=True):
    """Returns the path of the simulator binary and a dict about the build."""
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return _build(tag, verbose, t0)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)

def _build(tag, verbose, t0):
    rc, goroot, err = run([GOBIN, "env", "GOROOT"], VERIF)
    if rc:
        raise BuildError(err)
    goroot = goroot.strip()
    rtdir = os.path.join(BUILD, "rt")
    shutil.rmtree(rtdir, ignore_errors=True)
    os.makedirs(rtdir)
    ov = patchrt.patch(goroot, rtdir, HERE)
    base = os.path.join(BUILD, "overlay-base.json")
    # instrumenter, built with the same patched standard library (one std build)
    iov = dict(ov)
    imod = os.path.join(HERE, "instr")
    with open(base, "w") as f:
        json.dump({"Replace": iov}, f)
    instr = os.path.join(BUILD, "instr")
    rc, o, err = run([GOBIN, "build", "-overlay", base, "-o", instr, "."], imod)
    if rc:
        raise BuildError("instrumenter: " + err)
    world = os.path.join(HERE, "world")
    last = ""
    for level in (2, 1, 0):
        o2 = dict(ov)
        if level:
            idir = os.path.join(BUILD, "instr-src-%s" % tag)
            shutil.rmtree(idir, ignore_errors=True)
            os.makedirs(idir)
            rc, o, err = run([instr, str(level), idir, REPO], VERIF)
            if rc:
                last = err
                continue
            note = err.strip()
            for line in o.splitlines():
                a, b = line.split("\t")
                o2[a] = b
        else:
            note = "not instrumented"
        for fn in sorted(os.listdir(world)):
            if fn.endswith(".go"):
                o2[os.path.join(REPO, "zz_verifsim", fn)] = os.path.join(world, fn)
        ovf = os.path.join(BUILD, "overlay-%s.json" % tag)
        with open(ovf, "w") as f:
            json.dump({"Replace": o2}, f)
        binp = os.path.join(BUILD, "sim-%s" % tag)
        rc, o, err = run([GOBIN, "build", "-gcflags=github.com/cloudwego/iasm/x86_64=-N -l -c=8", "-ldflags=-w", "-overlay", ovf, "-o", binp, "./zz_verifsim"], REPO)
        if rc == 0:
            return binp, {"instrumentation_level": level, "instrumentation": note, "build_s": round(time.time() - t0, 1)}
        last = err
        if verbose:
            sys.stderr.write("build at instrumentation level %d failed:\n%s\n" % (level, err[-3000:]))
    raise BuildError(last)

if __name__ == "__main__":
    print(build())
