#!/usr/bin/env python3
"""Generate the `go build -overlay` file that turns the Go 1.27.3 runtime into a
controlled scheduler (see DESIGN.md, "Machinery").  Every edit is anchored on an
exact snippet of the installed GOROOT and fails loudly if the snippet moved."""
import json, os, sys

goroot, out, modcache = sys.argv[1], os.path.abspath(sys.argv[2]), sys.argv[3]
here = os.path.dirname(os.path.abspath(__file__))
os.makedirs(out, exist_ok=True)
replace = {}

def patch(rel, edits):
    src = open(f"{goroot}/src/{rel}").read()
    for old, new in edits:
        n = src.count(old)
        if n != 1:
            sys.exit(f"gen_overlay: {rel}: anchor found {n} times:\n{old}")
        src = src.replace(old, new)
    dst = f"{out}/{rel.replace('/', '__')}"
    write(dst, src)
    replace[f"{goroot}/src/{rel}"] = dst

def write(dst, src):
    try:
        if open(dst).read() == src:
            return
    except OSError:
        pass
    open(dst, "w").write(src)

def add(rel, srcfile):
    dst = f"{out}/{rel.replace('/', '__')}"
    write(dst, open(srcfile).read())
    replace[f"{goroot}/src/{rel}"] = dst

patch("runtime/runtime2.go", [(
    "	coroarg *coro // argument during coroutine transfers\n	bubble  *synctestBubble\n",
    "	coroarg *coro // argument during coroutine transfers\n	bubble  *synctestBubble\n	ctlid   uint32 // verif: id inside the controlled execution\n")])

patch("runtime/synctest.go", [
    ("	active  int // other sources of activity\n}",
     "	active  int // other sources of activity\n\n	ctl bool // verif: controlled execution\n}"),
    ("	if bubble.running > 0 || bubble.active > 0 {\n		return nil\n	}\n	// Increment",
     "	if bubble.ctl || bubble.running > 0 || bubble.active > 0 {\n		return nil\n	}\n	// Increment"),
    ("	lock(&bubble.mu)\n	bubble.total += totalDelta\n",
     "	if bubble.ctl {\n		return\n	}\n	lock(&bubble.mu)\n	bubble.total += totalDelta\n"),
])

patch("runtime/proc.go", [
    # ready()
    ("	runqput(mp.p.ptr(), gp, next)\n	wakep()\n	releasem(mp)\n",
     "	if ctlIs(gp) {\n		ctlEnqueue(gp)\n		releasem(mp)\n		return\n	}\n	runqput(mp.p.ptr(), gp, next)\n	wakep()\n	releasem(mp)\n"),
    # newproc
    ("		pp := getg().m.p.ptr()\n		runqput(pp, newg, true)\n\n		if mainStarted {",
     "		if ctlIs(newg) {\n			ctlEnqueue(newg)\n			return\n		}\n		pp := getg().m.p.ptr()\n		runqput(pp, newg, true)\n\n		if mainStarted {"),
    ("		newg.bubble = callergp.bubble\n",
     "		newg.bubble = callergp.bubble\n		ctlNewG(newg)\n"),
    # park_m
    ("	if bubble != nil {\n		bubble.decActive()\n	}\n\n	schedule()\n}\n\nfunc goschedImpl",
     "	if bubble != nil {\n		bubble.decActive()\n		if bubble.ctl {\n			ctlRelease(bubble, ctlReasonPark)\n		}\n	}\n\n	schedule()\n}\n\nfunc goschedImpl"),
    # goschedImpl
    ("	dropg()\n	if preempted && sched.gcwaiting.Load() {",
     "	dropg()\n	if ctlIs(gp) {\n		if preempted {\n			runqput(pp, gp, true)\n		} else {\n			ctlEnqueue(gp)\n			ctlRelease(gp.bubble, ctlReasonSched)\n		}\n		schedule()\n	}\n	if preempted && sched.gcwaiting.Load() {"),
    # goexit0
    ("	gdestroy(gp)\n	schedule()\n}\n\nfunc gdestroy",
     "	ctlb := gp.bubble\n	gdestroy(gp)\n	if ctlb != nil && ctlb.ctl {\n		ctlExit(ctlb)\n	}\n	schedule()\n}\n\nfunc gdestroy"),
])

patch("runtime/chan.go", [
    ("func chansend(c *hchan, ep unsafe.Pointer, block bool, callerpc uintptr) bool {\n",
     "func chansend(c *hchan, ep unsafe.Pointer, block bool, callerpc uintptr) bool {\n	ctlPoint()\n"),
    ("func closechan(c *hchan) {\n", "func closechan(c *hchan) {\n	ctlPoint()\n"),
    ("func chanrecv(c *hchan, ep unsafe.Pointer, block bool) (selected, received bool) {\n",
     "func chanrecv(c *hchan, ep unsafe.Pointer, block bool) (selected, received bool) {\n	ctlPoint()\n"),
])

patch("runtime/select.go", [
    ("func selectgo(cas0 *scase, order0 *uint16, pc0 *uintptr, nsends, nrecvs int, block bool) (int, bool) {\n",
     "func selectgo(cas0 *scase, order0 *uint16, pc0 *uintptr, nsends, nrecvs int, block bool) (int, bool) {\n	ctlPoint()\n"),
    ("		j := cheaprandn(uint32(norder + 1))\n",
     "		j := uint32(norder)\n		if !ctlIs(gp) {\n			j = cheaprandn(uint32(norder + 1))\n		}\n"),
    ("	pollorder = pollorder[:norder]\n	lockorder = lockorder[:norder]\n",
     "	pollorder = pollorder[:norder]\n	lockorder = lockorder[:norder]\n	if ctlIs(gp) {\n		ctlSelect(scases, pollorder, nsends)\n	}\n"),
])

patch("runtime/rand.go", [
    ("func rand() uint64 {\n", "func rand() uint64 {\n	if gp := getg(); gp.bubble != nil && gp.bubble.ctl {\n		return ctlRand()\n	}\n"),
    ("	globalRand.state.Init(*seed)\n", "	*seed = [32]byte{1, 2, 3, 4, 5, 6, 7, 8} // verif: deterministic hash seeds\n	globalRand.state.Init(*seed)\n"),
])
patch("runtime/time.go", [("			t.rand = cheaprand()\n", "			t.rand = ctlTimerOrder() // verif: deterministic\n")])
add("runtime/zz_ctl.go", f"{here}/runtime_ctl.go.txt")

patch("internal/sync/mutex.go", [
    ("func (m *Mutex) Lock() {\n", "func (m *Mutex) Lock() {\n	runtime_ctlPoint()\n"),
    ("func (m *Mutex) TryLock() bool {\n", "func (m *Mutex) TryLock() bool {\n	runtime_ctlPoint()\n"),
    ("			starving = starving || runtime_nanotime()-waitStartTime > starvationThresholdNs\n",
     "			starving = !runtime_ctlOn() && (starving || runtime_nanotime()-waitStartTime > starvationThresholdNs)\n"),
])
patch("internal/sync/runtime.go", [
    ("// SemacquireMutex is like Semacquire,", "//go:linkname runtime_ctlPoint\nfunc runtime_ctlPoint()\n\n//go:linkname runtime_ctlOn\nfunc runtime_ctlOn() bool\n\n// SemacquireMutex is like Semacquire,"),
])
patch("sync/rwmutex.go", [
    ("func (rw *RWMutex) RLock() {\n", "func (rw *RWMutex) RLock() {\n	runtime_ctlPoint()\n"),
    ("func (rw *RWMutex) TryRLock() bool {\n", "func (rw *RWMutex) TryRLock() bool {\n	runtime_ctlPoint()\n"),
])
patch("sync/runtime.go", [
    ("// SemacquireWaitGroup", "//go:linkname runtime_ctlPoint\nfunc runtime_ctlPoint()\n\n// SemacquireWaitGroup"),
])

import shutil
replaces = []
def copy_mod(mod, path):
    """Copy a cached module so that it can be patched (go refuses overlays there)."""
    dst = f"{out}/mods/{mod.split('@')[0].replace('/', '__')}"
    src = f"{modcache}/{mod}"
    for d, dirs, files in os.walk(src):
        dirs[:] = [x for x in dirs if x not in ("testdata", ".git")]
        rel = os.path.relpath(d, src)
        os.makedirs(f"{dst}/{rel}", exist_ok=True)
        for f in files:
            if f.endswith("_test.go"):
                continue
            t = f"{dst}/{rel}/{f}"
            if not os.path.exists(t):
                shutil.copyfile(f"{d}/{f}", t)
    replaces.append(f"replace {path} => {dst}")
    return src, dst

def patch_mod(m, rel, edits):
    src, dst = m
    text = open(f"{src}/{rel}").read()
    for old, new in edits:
        n = text.count(old)
        if n != 1:
            sys.exit(f"gen_overlay: {src}/{rel}: anchor found {n} times:\n{old}")
        text = text.replace(old, new)
    write(f"{dst}/{rel}", text)

LDB = copy_mod("github.com/syndtr/goleveldb@v1.0.0", "github.com/syndtr/goleveldb")
patch_mod(LDB, "leveldb/storage/file_storage.go", [
    ("func OpenFile(path string, readOnly bool) (Storage, error) {\n",
     "func OpenFile(path string, readOnly bool) (Storage, error) {\n	if VerifOpen != nil {\n		return VerifOpen(path, readOnly)\n	}\n"),
    ("const logSizeThreshold =", "// VerifOpen replaces the file system (verification only).\nvar VerifOpen func(path string, readOnly bool) (Storage, error)\n\nconst logSizeThreshold ="),
])
patch_mod(LDB, "leveldb/opt/options.go", [
    ("	DefaultWriteBuffer                   = 4 * MiB\n", "	DefaultWriteBuffer                   = 32 * KiB\n"),
])
PQ = copy_mod("github.com/lib/pq@v1.8.0", "github.com/lib/pq")
patch_mod(PQ, "conn.go", [
    ("func (d defaultDialer) Dial(network, address string) (net.Conn, error) {\n",
     "// VerifDial replaces the network (verification only).\nvar VerifDial func(ctx context.Context) (net.Conn, error)\n\nfunc (d defaultDialer) Dial(network, address string) (net.Conn, error) {\n	if VerifDial != nil {\n		return VerifDial(context.Background())\n	}\n"),
    ("func (d defaultDialer) DialContext(ctx context.Context, network, address string) (net.Conn, error) {\n",
     "func (d defaultDialer) DialContext(ctx context.Context, network, address string) (net.Conn, error) {\n	if VerifDial != nil {\n		return VerifDial(ctx)\n	}\n"),
])
write(f"{out}/overlay.json", json.dumps({"Replace": replace}, indent=1))
write(f"{out}/replaces.txt", "\n".join(replaces) + "\n")
