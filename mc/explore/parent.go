package explore

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verifmc/ctl"
)

// KnownFinding is one line of known-findings.jsonl.
type KnownFinding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Harness  string `json:"harness,omitempty"`
	Sig      string `json:"sig,omitempty"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func loadKnown(dir, prop string) []KnownFinding {
	var r []KnownFinding
	b, err := os.ReadFile(filepath.Join(dir, "known-findings.jsonl"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		var k KnownFinding
		if err := json.Unmarshal([]byte(l), &k); err != nil {
			fmt.Fprintln(os.Stderr, "known-findings.jsonl:", err)
			continue
		}
		if k.Property == prop && k.Status == "known" {
			r = append(r, k)
		}
	}
	return r
}

func matches(k KnownFinding, harness, sig string) bool {
	return k.Sig == sig && (k.Harness == "" || k.Harness == harness)
}

type hstate struct {
	h         *Harness
	bound     int // bound being explored
	max       int
	pending   []item
	active    int
	started   bool
	done      bool // space exhausted or max bound completed
	exhausted bool
	pruned    bool
	completed int // highest completed bound (-1: none)
	execs     int64
	nodes     int64
	steps     int64
	cases     int64
	maxPts    int
	outcomes  map[uint64]bool
	samples   []outcome
	failCount map[string]int64
	wall      time.Duration
}

type found struct {
	h *hstate
	f failure
}

type worker struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	enc    *json.Encoder
	dec    *json.Decoder
	stderr *bytes.Buffer
}

func startWorker(prop string) (*worker, error) {
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	w := &worker{cmd: exec.Command(exe, "worker", prop), stderr: &bytes.Buffer{}}
	w.cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "GOMEMLIMIT=off")
	w.in, err = w.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := w.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	w.cmd.Stderr = &limitedWriter{b: w.stderr, max: 64 << 10}
	if err := w.cmd.Start(); err != nil {
		return nil, err
	}
	w.enc = json.NewEncoder(w.in)
	w.dec = json.NewDecoder(bufio.NewReaderSize(out, 1<<20))
	return w, nil
}

type limitedWriter struct {
	mu  sync.Mutex
	b   *bytes.Buffer
	max int
}

func (l *limitedWriter) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() < l.max {
		l.b.Write(p)
	}
	return len(p), nil
}

func (w *worker) close() {
	_ = w.in.Close()
	_ = w.cmd.Process.Kill()
	_ = w.cmd.Wait()
}

// execTimeout is how long one execution may take in real time before it is
// taken for a non-terminating one (normal executions take well under 100 ms).
const execTimeout = 120 * time.Second

// call sends one task and reads the reply; in careful mode it reports the
// prefix that was running when the worker died or hung.
func (w *worker) call(t task) (rep reply, at []byte, crash string) {
	if err := w.enc.Encode(t); err != nil {
		_ = w.cmd.Process.Kill()
		_ = w.cmd.Wait()
		return rep, nil, "worker died: " + err.Error() + "\n" + w.stderr.String()
	}
	for {
		hung := false
		timer := time.AfterFunc(execTimeout, func() {
			hung = true
			_ = w.cmd.Process.Kill()
		})
		rep = reply{}
		err := w.dec.Decode(&rep)
		timer.Stop()
		if err != nil {
			_ = w.cmd.Process.Kill()
			_ = w.cmd.Wait()
			if hung {
				return rep, at, "execution did not terminate (killed after " + execTimeout.String() + ")"
			}
			return rep, at, "process died:\n" + head(w.stderr.String(), 6000)
		}
		if rep.IsAt {
			at = rep.At
			continue
		}
		return rep, nil, ""
	}
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func crashSig(crash string) string {
	for _, l := range strings.Split(crash, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") {
			return "crash: " + head(strings.TrimSpace(l), 120)
		}
	}
	if strings.Contains(crash, "did not terminate") {
		return "crash: no termination"
	}
	return "crash"
}

// Options for Check.
type Options struct {
	Dir      string // /verif
	Prop     string
	Deadline time.Duration
	Only     string
	Workers  int
	Bound    int // -1: by tier
	Keep     bool
	Verbose  bool
}

// Check explores every harness of a property and returns the exit code.
func Check(o Options) int {
	start := time.Now()
	p := props[o.Prop]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %s\n", o.Prop)
		return 2
	}
	known := loadKnown(o.Dir, o.Prop)
	if o.Workers == 0 {
		o.Workers = runtime.NumCPU()
	}
	var hs []*hstate
	for _, h := range p.Harnesses {
		if o.Only != "" && o.Only != h.Name {
			continue
		}
		if h.ThoroughOnly && !Thorough() && o.Only == "" {
			continue
		}
		max := Tier(h.Quick, h.Thorough)
		if o.Bound >= 0 {
			max = o.Bound
		}
		hs = append(hs, &hstate{h: h, max: max, completed: -1, outcomes: map[uint64]bool{}, failCount: map[string]int64{}})
	}
	var (
		mu       sync.Mutex
		cond     = sync.NewCond(&mu)
		stop     bool
		finds    []found
		diverged int64
		divMsg   string
		errs     []string
		seenKF   = map[string]bool{}
		nonRepro []string
	)
	end := start.Add(o.Deadline)
	isKnown := func(h, sig string) *KnownFinding {
		for i := range known {
			if matches(known[i], h, sig) {
				return &known[i]
			}
		}
		return nil
	}
	// next picks work; called with mu held.
	pick := func() (*hstate, []item, int) {
		for _, s := range hs {
			if s.done {
				continue
			}
			if !s.started {
				s.started = true
				s.pending = []item{{}}
				s.pruned = false
			}
			if len(s.pending) > 0 {
				n := len(s.pending) / (2 * o.Workers)
				if n < 1 {
					n = 1
				}
				if n > 400 {
					n = 400
				}
				items := append([]item(nil), s.pending[len(s.pending)-n:]...)
				s.pending = s.pending[:len(s.pending)-n]
				s.active++
				ms := 300
				if len(s.pending) < o.Workers {
					ms = 30
				}
				return s, items, ms
			}
		}
		return nil, nil, 0
	}
	finishLevel := func(s *hstate) {
		if s.active == 0 && len(s.pending) == 0 && s.started && !s.done {
			s.completed = s.bound
			if o.Verbose {
				fmt.Fprintf(os.Stderr, "%s/%s: bound %d done: execs=%d nodes=%d outcomes=%d pruned=%v t=%.1fs\n", o.Prop, s.h.Name, s.bound, s.execs, s.nodes, len(s.outcomes), s.pruned, time.Since(start).Seconds())
			}
			if !s.pruned {
				s.exhausted = true
				s.done = true
			} else if s.bound >= s.max {
				s.done = true
			} else {
				s.bound++
				s.started = false
			}
			s.wall = time.Since(start)
		}
	}
	allDone := func() bool {
		for _, s := range hs {
			if !s.done {
				return false
			}
		}
		return true
	}
	addFind := func(s *hstate, f failure) {
		s.failCount[f.Sig]++
		if k := isKnown(s.h.Name, f.Sig); k != nil {
			seenKF[k.Sig+"\x00"+k.Harness] = true
			return
		}
		for _, x := range finds {
			if x.h == s && x.f.Sig == f.Sig {
				return
			}
		}
		finds = append(finds, found{s, f})
		if !o.Keep {
			stop = true
		}
	}
	var wg sync.WaitGroup
	for i := 0; i < o.Workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w, err := startWorker(o.Prop)
			if err != nil {
				mu.Lock()
				errs = append(errs, err.Error())
				mu.Unlock()
				return
			}
			defer func() { w.close() }()
			mu.Lock()
			defer mu.Unlock()
			for {
				if stop || time.Now().After(end) {
					stop = true
					cond.Broadcast()
					return
				}
				s, items, ms := pick()
				if s == nil {
					if allDone() {
						cond.Broadcast()
						return
					}
					cond.Wait()
					continue
				}
				t := task{Harness: s.h.Name, Bound: s.bound, Items: items, MS: ms}
				mu.Unlock()
				rep, _, crash := w.call(t)
				var crashed *failure
				if crash != "" {
					// Re-run carefully to find the execution that kills the process.
					w.close()
					for try := 0; try < 3 && crashed == nil; try++ {
						w2, err := startWorker(o.Prop)
						if err != nil {
							break
						}
						ct := t
						ct.Careful = true
						r2, at, c2 := w2.call(ct)
						w2.close()
						if c2 != "" {
							crashed = &failure{Prefix: at, Sig: crashSig(c2), Msg: c2}
						} else {
							rep = r2
							break
						}
					}
				}
				var nw *worker
				if crash != "" || rep.Bye {
					w.close()
					nw, err = startWorker(o.Prop)
				}
				mu.Lock()
				if nw != nil {
					w = nw
				} else if err != nil {
					errs = append(errs, err.Error())
					stop = true
				}
				if crashed != nil {
					addFind(s, *crashed)
					s.pruned = true // the rest of this task is lost
					// continue with the siblings of the crashing item
					stop = stop || !o.Keep
				}
				if rep.Err != "" {
					errs = append(errs, rep.Err)
					stop = true
				}
				s.active--
				s.execs += rep.Execs
				s.nodes += rep.Nodes
				s.steps += rep.Steps
				s.cases += rep.Cases
				if rep.MaxPts > s.maxPts {
					s.maxPts = rep.MaxPts
				}
				if rep.Pruned {
					s.pruned = true
				}
				if rep.DivN > 0 {
					diverged += rep.DivN
					divMsg = s.h.Name + ": " + rep.Diverged
				}
				for _, oc := range rep.NewOut {
					if !s.outcomes[oc.Hash] {
						s.outcomes[oc.Hash] = true
						if len(s.samples) < 3 && oc.Text != "" {
							s.samples = append(s.samples, oc)
						}
					}
				}
				s.pending = append(s.pending, rep.Rest...)
				for _, f := range rep.Fails {
					addFind(s, f)
				}
				finishLevel(s)
				cond.Broadcast()
			}
		}()
	}
	// Wake waiters at the deadline.
	wake := time.AfterFunc(time.Until(end)+time.Second, func() { cond.Broadcast() })
	wg.Wait()
	wake.Stop()

	// Confirm what was found: five fresh replays each.
	violations := 0
	var lines []string
	for i, f := range finds {
		// A stand-in that does not understand the code gives no verdict.
		if f.f.Sig == "unsupported" {
			finds = finds[i : i+1]
			break
		}
	}
	for i, f := range finds {
		ok, res := confirm(o.Prop, f.h.h, f.f, 5)
		if !ok {
			nonRepro = append(nonRepro, f.h.h.Name+": "+f.f.Sig+": "+head(f.f.Msg, 300))
			continue
		}
		if f.f.Sig == "unsupported" {
			errs = append(errs, f.h.h.Name+": "+head(f.f.Msg, 500))
			continue
		}
		violations++
		path := filepath.Join(o.Dir, "evidence", fmt.Sprintf("%s.replay%d.json", o.Prop, i))
		writeReplay(path, o.Prop, f.h.h, f.f, res)
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", o.Prop, path))
		fmt.Printf("harness %s: [%s] %s\n", f.h.h.Name, f.f.Sig, head(f.f.Msg, 3000))
	}
	exhaustive := diverged == 0 && len(errs) == 0 && len(nonRepro) == 0
	for _, s := range hs {
		if !s.done {
			exhaustive = false
		}
	}
	writeEvidence(o, p, hs, exhaustive, violations, start, diverged, divMsg, errs, nonRepro, known, seenKF)
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", o.Prop, k.What)
	}
	for _, e := range errs {
		fmt.Fprintln(os.Stderr, "error:", e)
	}
	if diverged > 0 {
		fmt.Fprintf(os.Stderr, "warning: %d diverging executions (%s)\n", diverged, divMsg)
	}
	for _, n := range nonRepro {
		fmt.Fprintln(os.Stderr, "warning: not reproducible, ignored:", n)
	}
	var tot, nodes int64
	for _, s := range hs {
		tot += s.execs
		nodes += s.nodes
	}
	fmt.Printf("%s: %d executions, %d decision points, exhaustive=%v, %.1fs\n", o.Prop, tot, nodes, exhaustive, time.Since(start).Seconds())
	for _, l := range lines {
		fmt.Println(l)
	}
	if violations > 0 {
		return 1
	}
	if len(errs) > 0 {
		return 2
	}
	return 0
}

func confirm(prop string, h *Harness, f failure, n int) (bool, *ctl.Result) {
	var last *ctl.Result
	for i := 0; i < n; i++ {
		sigs, res, crash := replayOnce(prop, h.Name, f.Prefix)
		last = res
		if crash != "" {
			if crashSig(crash) != f.Sig {
				return false, nil
			}
			continue
		}
		hit := false
		for _, s := range sigs {
			if s == f.Sig {
				hit = true
			}
		}
		if !hit {
			return false, nil
		}
	}
	return true, last
}

type replayOut struct {
	Failures []ctl.Failure
	Log      []string
	Diverged string
}

func replayOnce(prop, harness string, prefix []byte) (sigs []string, res *ctl.Result, crash string) {
	exe, _ := os.Executable()
	var ps []string
	for _, c := range prefix {
		ps = append(ps, strconv.Itoa(int(c)))
	}
	cmd := exec.Command(exe, "replay1", prop, harness, strings.Join(ps, ","))
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all")
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &limitedWriter{b: &se, max: 64 << 10}
	hung := false
	timer := time.AfterFunc(execTimeout, func() { hung = true; _ = cmd.Process.Kill() })
	err := cmd.Run()
	timer.Stop()
	if hung {
		return nil, nil, "execution did not terminate"
	}
	var ro replayOut
	if err != nil || json.Unmarshal(so.Bytes(), &ro) != nil {
		return nil, nil, "process died:\n" + head(se.String(), 6000)
	}
	for _, f := range ro.Failures {
		sigs = append(sigs, f.Sig)
	}
	return sigs, &ctl.Result{Failures: ro.Failures, Log: ro.Log, Diverged: ro.Diverged}, ""
}

// Replay1 runs one execution with tracing and prints the result as JSON.
func Replay1(prop, harness, prefix string) {
	h, err := findHarness(prop, harness)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var p []int
	for _, s := range strings.Split(prefix, ",") {
		if s == "" {
			continue
		}
		n, _ := strconv.Atoi(s)
		p = append(p, n)
	}
	out := takeStdout()
	r := ctl.Run(&h.Cfg, p, true, h.Body)
	r.Log = append(r.Log, "outcome: "+r.Outcome)
	_ = json.NewEncoder(out).Encode(replayOut{r.Failures, r.Log, r.Diverged})
}

type replayFile struct {
	Property string   `json:"property"`
	Harness  string   `json:"harness"`
	Doc      string   `json:"doc"`
	Tier     string   `json:"tier"`
	Prefix   []int    `json:"choices"`
	Sig      string   `json:"sig"`
	Msg      string   `json:"message"`
	Trace    []string `json:"trace"`
	How      string   `json:"how_to_replay"`
}

func writeReplay(path, prop string, h *Harness, f failure, res *ctl.Result) {
	rf := replayFile{Property: prop, Harness: h.Name, Doc: h.Doc, Tier: os.Getenv("VERIF_TIER"), Prefix: toInts(f.Prefix), Sig: f.Sig, Msg: f.Msg, How: "bash check.sh replay " + path}
	if res != nil {
		rf.Trace = res.Log
	}
	b, _ := json.MarshalIndent(rf, "", " ")
	_ = os.MkdirAll(filepath.Dir(path), 0o755)
	_ = os.WriteFile(path, b, 0o644)
}

// Replay re-runs a replay file and prints the trace.
func Replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	pb := make([]byte, len(rf.Prefix))
	for i, c := range rf.Prefix {
		pb[i] = byte(c)
	}
	if rf.Tier != "" {
		os.Setenv("VERIF_TIER", rf.Tier)
	}
	sigs, res, crash := replayOnce(rf.Property, rf.Harness, pb)
	if crash != "" {
		fmt.Println(crash)
		return 1
	}
	for _, l := range res.Log {
		fmt.Println(l)
	}
	for _, f := range res.Failures {
		fmt.Printf("FAIL [%s] %s\n", f.Sig, f.Msg)
	}
	if len(sigs) > 0 {
		return 1
	}
	fmt.Println("no failure")
	return 0
}

func writeEvidence(o Options, p *Property, hs []*hstate, exhaustive bool, violations int, start time.Time, diverged int64, divMsg string, errs, nonRepro []string, known []KnownFinding, seenKF map[string]bool) {
	var execs, nodes, steps, cases int64
	distinct := 0
	var samples []interface{}
	var per []map[string]interface{}
	for _, s := range hs {
		execs += s.execs
		nodes += s.nodes
		steps += s.steps
		cases += s.cases
		distinct += len(s.outcomes)
		m := map[string]interface{}{
			"harness": s.h.Name, "what": s.h.Doc, "executions": s.execs, "decision_points": s.nodes,
			"scheduling_steps": s.steps, "completed_deviation_bound": s.completed, "space_exhausted": s.exhausted,
			"distinct_outcomes": len(s.outcomes), "max_decisions_per_execution": s.maxPts,
		}
		if s.cases > 0 {
			m["cases_inside_executions"] = s.cases
		}
		if len(s.failCount) > 0 {
			m["failures_by_signature"] = s.failCount
		}
		per = append(per, m)
		for _, oc := range s.samples {
			if len(samples) < 40 {
				samples = append(samples, map[string]interface{}{"harness": s.h.Name, "choices": compact(oc.Prefix), "outcome": head(oc.Text, 600)})
			}
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "no execution finished")
	}
	cov := map[string]interface{}{
		"evaluations": execs + cases, "distinct_nontrivial": distinct, "rule": p.Rule, "samples": samples,
		"states": nodes, "transitions": steps, "traces_validated_against_impl": execs,
		"exhaustive": exhaustive, "harnesses": per,
	}
	if diverged > 0 {
		cov["diverged_executions"] = diverged
		cov["divergence"] = divMsg
	}
	if len(errs) > 0 {
		cov["errors"] = errs
	}
	if len(nonRepro) > 0 {
		cov["not_reproducible"] = nonRepro
	}
	var kf []string
	for _, k := range known {
		st := "not reached in this run"
		if seenKF[k.Sig+"\x00"+k.Harness] {
			st = "seen in this run"
		}
		kf = append(kf, k.Sig+": "+k.What+" ("+st+")")
	}
	sort.Strings(kf)
	if len(kf) > 0 {
		cov["known_findings"] = kf
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := "quick"
	if Thorough() {
		tier = "thorough"
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": p.Level, "coverage": cov,
		"assumptions": p.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": violations,
	}
	if p.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	path := filepath.Join(o.Dir, "evidence", p.ID+".json")
	_ = os.MkdirAll(filepath.Dir(path), 0o755)
	_ = os.WriteFile(path, append(b, '\n'), 0o644)
}

func compact(p []byte) string {
	var sb strings.Builder
	for i, c := range p {
		if i > 0 {
			sb.WriteByte(' ')
		}
		sb.WriteString(strconv.Itoa(int(c)))
		if i > 120 {
			sb.WriteString(" ...")
			break
		}
	}
	return sb.String()
}
