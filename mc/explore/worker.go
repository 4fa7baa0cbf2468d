package explore

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"time"

	"verifmc/ctl"
)

const (
	heapGC    = 192 << 20
	leakedMax = 30000
	heapMax   = 1200 << 20
)

// takeStdout returns the standard output and leaves the code under test one
// whose contents are dropped.
func takeStdout() *os.File {
	out := os.Stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	return out
}

// Worker serves exploration tasks over stdin/stdout.
func Worker(prop string) {
	ctl.Init()
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(takeStdout(), 1<<20)
	dec := json.NewDecoder(in)
	enc := json.NewEncoder(out)
	outcomes := map[string]map[uint64]bool{}
	leaked := 0
	var ms runtime.MemStats
	sinceCheck := 0
	for {
		var t task
		if err := dec.Decode(&t); err != nil || t.Quit {
			return
		}
		h, err := findHarness(prop, t.Harness)
		if err != nil {
			_ = enc.Encode(reply{Err: err.Error()})
			out.Flush()
			continue
		}
		known := map[string]bool{}
		for _, k := range t.Known {
			known[k] = true
		}
		seen := outcomes[h.Name]
		if seen == nil {
			seen = map[uint64]bool{}
			outcomes[h.Name] = seen
			if !t.Careful {
				// Fill process-wide caches (reflection, encoders) before anything counts.
				ctl.Run(&h.Cfg, nil, false, h.Body)
			}
		}
		var rep reply
		failSeen := map[string]bool{}
		stack := t.Items
		deadline := time.Now().Add(time.Duration(t.MS) * time.Millisecond)
		for len(stack) > 0 {
			it := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if t.Careful {
				_ = enc.Encode(reply{IsAt: true, At: it.P})
				out.Flush()
			}
			prefix := toInts(it.P)
			r := ctl.Run(&h.Cfg, prefix, false, h.Body)
			for try := 0; try < 2 && diverged(r, it, len(prefix)) != ""; try++ {
				leaked += r.Leaked
				r = ctl.Run(&h.Cfg, prefix, false, h.Body)
			}
			rep.Execs++
			rep.Steps += int64(r.Steps)
			rep.Cases += r.Cases
			leaked += r.Leaked
			sinceCheck++
			if len(r.Points) > rep.MaxPts {
				rep.MaxPts = len(r.Points)
			}
			div := diverged(r, it, len(prefix))
			if div != "" {
				if os.Getenv("MC_DEBUGDIV") != "" {
					a := ctl.Run(&h.Cfg, prefix, true, h.Body)
					f, _ := os.CreateTemp("", "div")
					fmt.Fprintf(f, "%s\n%v\n", div, prefix)
					for _, l := range a.Log {
						fmt.Fprintln(f, l)
					}
					pp := prefix
					for k := 0; k < 2; k++ {
						fmt.Fprintln(f, "---- parent")
						q := append([]int(nil), pp[:len(pp)-1]...)
						a = ctl.Run(&h.Cfg, q, true, h.Body)
						for _, l := range a.Log {
							fmt.Fprintln(f, l)
						}
					}
					f.Close()
				}
				rep.DivN++
				rep.Diverged = div
				continue
			}
			rep.Nodes += int64(len(r.Points) - len(prefix))
			for _, f := range r.Failures {
				if failSeen[f.Sig] && len(rep.Fails) > 4 {
					continue
				}
				failSeen[f.Sig] = true
				rep.Fails = append(rep.Fails, failure{choices(r, len(r.Points)), f.Sig, f.Msg})
			}
			oh := ctl.HashString(r.Outcome)
			if !seen[oh] && len(seen) < 200000 {
				seen[oh] = true
				o := outcome{Hash: oh, Prefix: choices(r, len(r.Points))}
				if len(seen) <= 8 {
					o.Text = r.Outcome
				}
				rep.NewOut = append(rep.NewOut, o)
			}
			// Children: deviate at each new point.
			cost := 0
			for i := 0; i < len(prefix); i++ {
				cost += int(r.Points[i].Costs[r.Points[i].Chosen])
			}
			for i := len(prefix); i < len(r.Points); i++ {
				p := &r.Points[i]
				for a := p.N - 1; a >= 1; a-- {
					if cost+int(p.Costs[a]) > t.Bound {
						rep.Pruned = true
						continue
					}
					np := choices(r, i+1)
					np[i] = byte(a)
					stack = append(stack, item{np, p.Hash})
				}
				cost += int(p.Costs[p.Chosen])
			}
			if h.ExecsPerGC > 0 && sinceCheck >= h.ExecsPerGC || sinceCheck >= 256 {
				sinceCheck = 0
				runtime.ReadMemStats(&ms)
				if ms.HeapAlloc > heapGC || h.ExecsPerGC > 0 {
					runtime.GC()
					runtime.ReadMemStats(&ms)
				}
				if leaked > leakedMax || ms.HeapAlloc > heapMax {
					rep.Bye = true
					break
				}
			}
			if time.Now().After(deadline) {
				break
			}
		}
		rep.Rest = stack
		_ = enc.Encode(rep)
		out.Flush()
		if rep.Bye {
			return
		}
	}
}

func diverged(r *ctl.Result, it item, n int) string {
	if r.Diverged == "" && it.H != 0 && n > 0 && r.Points[n-1].Hash != it.H {
		return "the replayed prefix reached a different state"
	}
	return r.Diverged
}

func choices(r *ctl.Result, n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i++ {
		b[i] = byte(r.Points[i].Chosen)
	}
	return b
}
