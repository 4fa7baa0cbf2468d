// Package ctl runs Go code under a controlled scheduler: the runtime overlay
// lets exactly one goroutine of an execution run at a time and hands every
// scheduling decision (which goroutine, which ready select case, whether a
// pending timer fires first) to this package.
package ctl

import (
	"fmt"
	"hash/fnv"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

const (
	reasonPark   = 1
	reasonSched  = 2
	reasonExit   = 3
	reasonPoint  = 4
	reasonSelect = 5
	reasonStmt   = 6
)

// Config describes how one harness is explored.
type Config struct {
	// BlockCost is charged for a non-default choice of successor when the
	// running goroutine blocked or exited (0: all orders free; 1: delay bounding).
	BlockCost int
	// SelectCost is charged for taking a ready select case other than the first.
	SelectCost int
	// TimerCost is charged for firing a pending timer while goroutines can run.
	// 0 disables early timers.
	TimerCost int
	// Background lists package prefixes: goroutines started there always run
	// first, without a choice.
	Background []string
	// Sticky makes the goroutine that ran last the default again once background
	// goroutines have unblocked it (otherwise whichever has been ready longest).
	Sticky bool
	// Families explores every case under two default orders: besides "whichever
	// has been ready longest", "thread by thread": first the goroutines started
	// before the threads, then those of the thread that ran last (itself, and the
	// goroutines that it and they started), then those of the other threads.
	Families bool
	// MaxTimers bounds the timers fired while waiting for quiescence.
	MaxTimers int
	// MaxSteps bounds one execution (horizon).
	MaxSteps int
	// PointPkgs lists the package prefixes whose synchronization operations are
	// scheduling points. Default: the repository and the harness.
	PointPkgs []string
	// Stmt makes every statement of the instrumented packages a scheduling point.
	Stmt bool
	Seed uint64
}

var defaultPointPkgs = []string{"github.com/inklabs/rangedb", "verifmc/", "main."}

// Point is one recorded decision.
type Point struct {
	Kind   byte // 't' thread after block, 'p' preemption, 's' select, 'c' data choice
	N      int
	Chosen int
	Costs  []uint8
	Desc   string
	Hash   uint64
}

// Goroutine describes a goroutine that is still alive.
type Goroutine struct {
	ID      uint32
	Created string
	Reason  string
	Stack   []string
}

func (g Goroutine) String() string {
	return fmt.Sprintf("g%d created by %s, %s at %s", g.ID, g.Created, g.Reason, strings.Join(g.Stack, " < "))
}

// Failure is one violation seen in an execution. Sig identifies the kind of
// failure (used to match known findings); Msg is the detail.
type Failure struct {
	Sig string
	Msg string
}

// X is one controlled execution.
type X struct {
	gcReq    bool
	lastFg   uint32
	family   map[uint32]uint32 // by goroutine; known only if cfg.Families
	current  uint32            // family that ran last
	maxID    uint32
	byFamily bool
	ordered  bool
	cfg      *Config
	prefix   []int
	points   []Point
	hash     uint64
	failures []Failure
	failSeen map[string]bool
	soft     map[string]bool
	outcome  strings.Builder
	trace    bool
	log      []string
	explore  bool
	mainID   uint32
	mainWait bool
	mainDone bool
	threads  map[uint32]string
	live     int
	steps    int
	timers   int
	timersAt int
	running  uint32
	diverged string
	horizon  bool
	cases    int64
	stop     bool
}

// Result of one execution.
type Result struct {
	Points   []Point
	Failures []Failure
	Outcome  string
	Hash     uint64
	Diverged string
	Steps    int
	Horizon  bool
	Log      []string
	Leaked   int
	Cases    int64
}

var (
	idsBuf   [4096]uint32
	gopcsBuf [4096]uintptr
	bgCache  = map[uintptr]bool{}
	ptCache  = map[[10]uintptr]bool{}
	inited   bool
)

// Init prepares the process for controlled executions.
func Init() {
	if inited {
		return
	}
	inited = true
	runtime.MemProfileRate = 0
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
}

func hasPrefix(name string, prefixes []string) bool {
	for _, p := range prefixes {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func funcName(pc uintptr) string {
	fr, _ := runtime.CallersFrames([]uintptr{pc}).Next()
	return fr.Function
}

func (x *X) isBackground(gopc uintptr) bool {
	if len(x.cfg.Background) == 0 {
		return false
	}
	v, ok := bgCache[gopc]
	if !ok {
		v = hasPrefix(funcName(gopc), x.cfg.Background)
		bgCache[gopc] = v
	}
	return v
}

func firstFrame(pcs []uintptr) (fn, file string, line int) {
	frames := runtime.CallersFrames(pcs)
	for {
		fr, more := frames.Next()
		if fr.Function == "" && !more {
			return "", "", 0
		}
		if !strings.HasPrefix(fr.Function, "runtime.") && !strings.HasPrefix(fr.Function, "sync.") &&
			!strings.HasPrefix(fr.Function, "internal/") && !strings.HasPrefix(fr.Function, "verifmc/ctl.") {
			return fr.Function, fr.File, fr.Line
		}
		if !more {
			return "", "", 0
		}
	}
}

var pcsBuf [16]uintptr

func (x *X) isRealPoint() bool {
	n := rtPCs(pcsBuf[:])
	var key [10]uintptr
	copy(key[:], pcsBuf[:n])
	v, ok := ptCache[key]
	if !ok {
		fn, _, _ := firstFrame(pcsBuf[:n])
		pk := x.cfg.PointPkgs
		if len(pk) == 0 {
			pk = defaultPointPkgs
		}
		v = hasPrefix(fn, pk)
		ptCache[key] = v
	}
	return v
}

func (x *X) where() string {
	n := rtPCs(pcsBuf[:])
	if n == 0 {
		return "?"
	}
	fn, file, line := firstFrame(pcsBuf[:n])
	return short(fn) + " " + base(file) + fmt.Sprintf(":%d", line)
}

func base(s string) string {
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		return s[i+1:]
	}
	return s
}
func short(s string) string { return base(s) }

// decide consults the choice sequence.
func (x *X) decide(kind byte, n int, costs []uint8, desc func() string) int {
	i := len(x.points)
	c := 0
	if i < len(x.prefix) {
		c = x.prefix[i]
		if c >= n {
			if x.diverged == "" {
				x.diverged = fmt.Sprintf("choice %d at point %d of %d alternatives", c, i, n)
			}
			c = 0
		}
	}
	x.hash = (x.hash ^ uint64(kind) ^ uint64(n)<<8 ^ uint64(x.running)<<16) * 1099511628211
	p := Point{Kind: kind, N: n, Chosen: c, Costs: costs, Hash: x.hash}
	if x.trace {
		p.Desc = desc()
		x.log = append(x.log, fmt.Sprintf("#%d %c choose %d/%d %s", i, kind, c, n, p.Desc))
	}
	x.points = append(x.points, p)
	return c
}

var oneCosts = func() [][]uint8 {
	r := make([][]uint8, 64)
	for i := range r {
		r[i] = make([]uint8, i)
		for j := 1; j < i; j++ {
			r[i][j] = 1
		}
	}
	return r
}()

var zeroCosts [256]uint8

func costs(n, c int) []uint8 {
	if c == 1 && n < len(oneCosts) {
		return oneCosts[n]
	}
	if c == 0 && n < len(zeroCosts) {
		return zeroCosts[:n]
	}
	r := make([]uint8, n)
	for j := 1; j < n; j++ {
		r[j] = uint8(c)
	}
	return r
}

func (x *X) name(id uint32, gopc uintptr) string {
	if n, ok := x.threads[id]; ok {
		return n
	}
	return fmt.Sprintf("g%d(%s)", id, short(funcName(gopc)))
}

// Run executes body once under the given choice prefix.
func Run(cfg *Config, prefix []int, trace bool, body func(x *X)) *Result {
	Init()
	x := &X{cfg: cfg, prefix: prefix, trace: trace, threads: map[uint32]string{}, hash: 14695981039346656037}
	rtBegin(cfg.Seed + 1)
	rtStmt(cfg.Stmt, trace)
	x.mainID = rtSpawn(func() {
		defer func() {
			if r := recover(); r != nil {
				x.failSig("panic", fmt.Sprintf("panic in harness main: %v\n%s", r, trimStack(debug.Stack())))
			}
			x.mainDone = true
		}()
		body(x)
	})
	x.threads[x.mainID] = "main"
	x.schedule()
	leaked := x.countLive()
	rtEnd()
	if x.diverged == "" && len(x.points) < len(x.prefix) {
		x.diverged = fmt.Sprintf("execution ended after %d of %d prefix choices", len(x.points), len(x.prefix))
	}
	return &Result{Points: x.points, Failures: x.failures, Outcome: x.outcome.String(), Hash: x.hash,
		Diverged: x.diverged, Steps: x.steps, Horizon: x.horizon, Log: x.log, Leaked: leaked, Cases: x.cases}
}

func (x *X) countLive() int { return rtLive() }

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 60 {
		lines = lines[:60]
	}
	return strings.Join(lines, "\n")
}

func (x *X) schedule() {
	maxSteps := x.cfg.MaxSteps
	if maxSteps == 0 {
		maxSteps = 200000
	}
	var reason uint32
	for {
		x.steps++
		if x.gcReq {
			x.gcReq = false
			runtime.GC()
		}
		if x.steps > maxSteps {
			x.horizon = true
			x.failSig("horizon", fmt.Sprintf("execution did not finish within %d scheduling steps", maxSteps))
			return
		}
		n := rtEnabled(idsBuf[:], gopcsBuf[:])
		if x.cfg.Families {
			x.learn(n)
		}
		if reason == reasonPoint || reason == reasonSelect || reason == reasonStmt {
			// The running goroutine yielded; it is enabled[0].
			if reason == reasonSelect {
				if x.explore && x.isRealPoint() {
					k := rtSelN()
					rtSelChoose(x.decide('s', k, costs(k, x.cfg.SelectCost), func() string { return x.name(idsBuf[0], gopcsBuf[0]) + " select at " + x.where() }))
				}
				reason = rtResume(0)
				continue
			}
			if !x.mainWait && !x.explore {
				reason = rtResume(0)
				continue
			}
			if idsBuf[0] != x.mainID || !x.mainWait {
				if n == 1 || !x.explore || (reason == reasonPoint && !x.isRealPoint()) {
					reason = rtResume(0)
					continue
				}
			}
		}
		yielded := reason == reasonPoint || reason == reasonStmt
		// Background goroutines run first.
		bg := -1
		var cand [64]int
		nc := 0
		for i := 0; i < n; i++ {
			if idsBuf[i] == x.mainID && x.mainWait {
				continue
			}
			if x.isBackground(gopcsBuf[i]) {
				if bg < 0 {
					bg = i
				}
				continue
			}
			if nc < len(cand)-1 {
				cand[nc] = i
				nc++
			}
		}
		if bg >= 0 {
			x.running = idsBuf[bg]
			reason = rtResume(bg)
			continue
		}
		if nc == 0 {
			// Nothing can run without time passing.
			if x.mainDone && n == 0 {
				return
			}
			if rtNextTimer() != 0 && x.wantTimers() {
				x.timers++
				if x.trace {
					x.log = append(x.log, "   timer fires")
				}
				rtFire()
				reason = 0
				continue
			}
			if x.mainWait {
				x.mainWait = false
				for i := 0; i < n; i++ {
					if idsBuf[i] == x.mainID {
						x.running = x.mainID
						reason = rtResume(i)
						break
					}
				}
				continue
			}
			if !x.mainDone {
				x.failSig("main-blocked", "harness main is blocked: "+x.describe())
			}
			return
		}
		if x.byFamily && !yielded {
			for i := 1; i < nc; i++ {
				for j := i; j > 0 && x.rank(idsBuf[cand[j]]) < x.rank(idsBuf[cand[j-1]]); j-- {
					cand[j], cand[j-1] = cand[j-1], cand[j]
				}
			}
		}
		if x.cfg.Sticky && !x.byFamily && !yielded {
			for i := 1; i < nc; i++ {
				if idsBuf[cand[i]] == x.lastFg {
					c := cand[i]
					copy(cand[1:i+1], cand[:i])
					cand[0] = c
					break
				}
			}
		}
		choice := 0
		if x.explore {
			timer := 0
			if x.cfg.TimerCost > 0 && rtNextTimer() != 0 {
				timer = 1
			}
			if nc+timer > 1 {
				kind := byte('t')
				c := x.cfg.BlockCost
				if yielded && cand[0] == 0 {
					kind = 'p'
					c = 1
				}
				cs := costs(nc+timer, c)
				if timer == 1 {
					cs = append([]uint8(nil), cs...)
					cs[nc] = uint8(x.cfg.TimerCost)
				}
				choice = x.decide(kind, nc+timer, cs, func() string {
					var names []string
					for i := 0; i < nc; i++ {
						names = append(names, x.name(idsBuf[cand[i]], gopcsBuf[cand[i]]))
					}
					if timer == 1 {
						names = append(names, "timer")
					}
					w := ""
					if kind == 'p' {
						w = " at " + x.where()
					}
					return strings.Join(names, " | ") + w
				})
				if choice == nc {
					x.timers++
					rtFire()
					if yielded {
						// the yielded goroutine stays enabled at the front
						reason = reasonSched
					} else {
						reason = 0
					}
					continue
				}
			}
		}
		i := cand[choice]
		x.running = idsBuf[i]
		x.lastFg = x.running
		if f := x.family[x.running]; f != 0 {
			x.current = f
		}
		reason = rtResume(i)
	}
}

// rank orders goroutines by family: those started before the threads, the
// thread that ran last, the others in the order of their start.
func (x *X) rank(id uint32) uint32 {
	switch f := x.family[id]; f {
	case 0:
		return 0
	case x.current:
		return 1
	default:
		return f + 1
	}
}

// learn finds out which thread new goroutines belong to: that of the goroutine that ran last.
func (x *X) learn(n int) {
	max := x.maxID
	for i := 0; i < n; i++ {
		id := idsBuf[i]
		if id <= x.maxID {
			continue
		}
		if x.family == nil {
			x.family = map[uint32]uint32{}
		}
		if strings.HasSuffix(funcName(gopcsBuf[i]), "ctl.(*X).Go") {
			x.family[id] = id
		} else {
			x.family[id] = x.family[x.running]
		}
		if id > max {
			max = id
		}
	}
	x.maxID = max
}

func (x *X) wantTimers() bool {
	if x.mainDone {
		return false
	}
	max := x.cfg.MaxTimers
	if max == 0 {
		max = 64
	}
	if x.timers-x.timersAt >= max {
		return false
	}
	if x.mainWait {
		return x.live > 0 || x.timersAt < 0
	}
	return true // main itself is blocked on time
}

func (x *X) failSig(sig, msg string) {
	if x.failSeen == nil {
		x.failSeen = map[string]bool{}
	}
	if x.failSeen[sig] {
		return
	}
	x.failSeen[sig] = true
	x.failures = append(x.failures, Failure{sig, msg})
	if x.trace {
		x.log = append(x.log, "   FAIL ["+sig+"] "+msg)
	}
}

// Explore switches exploration of scheduling alternatives on or off.
func (x *X) Explore(on bool) {
	if on && x.cfg.Families && !x.ordered {
		x.ordered = true
		x.byFamily = x.ChooseF(2, 0, func(i int) string { return []string{"longest ready first", "thread by thread"}[i] }) == 1
	}
	x.explore = on
	rtPoints(on)
}

// Go starts a harness thread.
func (x *X) Go(name string, f func()) {
	x.live++
	go func() {
		id := rtSelfID()
		x.threads[id] = name
		defer func() {
			x.live--
			delete(x.threads, id)
			if r := recover(); r != nil {
				x.failSig("panic", fmt.Sprintf("panic in %s: %v\n%s", name, r, trimStack(debug.Stack())))
			}
		}()
		f()
	}()
}

// Point is an explicit scheduling point.
func (x *X) Point() { rtPoint() }

// Choose is a data choice with n alternatives, the non-default ones costing cost.
func (x *X) Choose(n, cost int, desc string) int {
	if n < 2 {
		return 0
	}
	return x.decide('c', n, costs(n, cost), func() string { return desc })
}

// ChooseF is Choose with a lazily computed description of the alternatives.
func (x *X) ChooseF(n, cost int, desc func(i int) string) int {
	if n < 2 {
		return 0
	}
	i := len(x.points)
	return x.decide('c', n, costs(n, cost), func() string {
		c := 0
		if i < len(x.prefix) {
			c = x.prefix[i]
		}
		return desc(c)
	})
}

// Replaying reports whether the execution is still inside its choice prefix:
// everything checked so far was already checked by an earlier execution.
func (x *X) Replaying() bool { return len(x.points) < len(x.prefix) }

// Tracing reports whether this execution is recorded for a human.
func (x *X) Tracing() bool { return x.trace }

// Count adds cases evaluated inside one execution.
func (x *X) Count(n int) { x.cases += int64(n) }

// Quiesce runs everything else until nothing can run any more (firing timers
// while harness threads are still unfinished) and returns the names of the
// harness threads that never finished.
func (x *X) Quiesce() []string {
	x.timersAt = x.timers
	x.mainWait = true
	rtPoints(true)
	rtPoint()
	x.mainWait = false
	rtPoints(x.explore)
	var names []string
	for id, n := range x.threads {
		if id != x.mainID {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	return names
}

// Fail records a violation of this execution.
func (x *X) Fail(format string, args ...interface{}) {
	msg := fmt.Sprintf(format, args...)
	x.failSig("fail", msg)
}

// FailSig records a violation with a signature that known findings can name.
func (x *X) FailSig(sig, format string, args ...interface{}) {
	x.failSig(sig, fmt.Sprintf(format, args...))
}

// Failed reports whether a violation was recorded.
func (x *X) Failed() bool {
	for _, f := range x.failures {
		if !x.soft[f.Sig] {
			return true
		}
	}
	return false
}

// GC makes the controller collect garbage before it continues; for harnesses whose executions are long.
func (x *X) GC() { x.gcReq = true }

// Soft makes Failed ignore violations with this signature, so that a harness
// goes on after a kind of violation it names precisely.
func (x *X) Soft(sig string) {
	if x.soft == nil {
		x.soft = map[string]bool{}
	}
	x.soft[sig] = true
}

// Observe adds to the outcome of this execution.
func (x *X) Observe(format string, args ...interface{}) {
	fmt.Fprintf(&x.outcome, format, args...)
	x.outcome.WriteByte(';')
}

// Logf adds to the trace.
func (x *X) Logf(format string, args ...interface{}) {
	if x.trace {
		x.log = append(x.log, "   "+fmt.Sprintf(format, args...))
	}
}

// Now is the fake time of the execution.
func (x *X) Now() time.Duration { return time.Duration(rtNow() - 946684800000000000) }

// HashString is a convenience for outcome hashing.
func HashString(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// Goroutines lists live goroutines of the execution except the caller.
func (x *X) Goroutines() []Goroutine {
	const m = 256
	ids := make([]uint32, m)
	gopcs := make([]uintptr, m)
	reasons := make([]string, m)
	stacks := make([][16]uintptr, m)
	nst := make([]int, m)
	n := rtGoroutines(ids, gopcs, reasons, stacks, nst)
	self := rtSelfID()
	var out []Goroutine
	for i := 0; i < n; i++ {
		if ids[i] == self {
			continue
		}
		g := Goroutine{ID: ids[i], Created: x.name(ids[i], gopcs[i]), Reason: reasons[i]}
		frames := runtime.CallersFrames(stacks[i][:nst[i]])
		for {
			fr, more := frames.Next()
			if fr.Function != "" && !strings.HasPrefix(fr.Function, "runtime.") {
				g.Stack = append(g.Stack, fmt.Sprintf("%s(%s:%d)", short(fr.Function), base(fr.File), fr.Line))
			}
			if !more {
				break
			}
		}
		out = append(out, g)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

func (x *X) describe() string {
	var s []string
	for _, g := range x.Goroutines() {
		s = append(s, g.String())
	}
	return strings.Join(s, "; ")
}

// Describe lists every live goroutine and where it is blocked.
func (x *X) Describe() string { return x.describe() }
