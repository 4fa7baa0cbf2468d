package h

import (
	"os"
	"path/filepath"
	"strings"

	"verifmc/ctl"
	"verifmc/explore"
)

// e2eBuild is the directory with the programs of /repo and the driver that checks them.
func e2eBuild(x *ctl.X) string {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	build := filepath.Dir(exe)
	if _, err := os.Stat(filepath.Join(build, "e2e", "ok")); err == nil {
		return filepath.Join(build, "e2e")
	}
	if out, err := command(build, nil, "bash", filepath.Join(build, "..", "tools", "e2e.sh"), build); err != nil {
		x.FailSig("unsupported", "the programs do not build: %v\n%s", err, out)
		return ""
	}
	return filepath.Join(build, "e2e")
}

// e2eHarness runs every sequence of operations against the server program.
func e2eHarness(name, doc string, ops []string, depth func() int, args ...string) *explore.Harness {
	return &explore.Harness{Name: name, Doc: doc, Cfg: ctl.Config{}, Body: func(x *ctl.X) {
		var seq []string
		for n := depth(); len(seq) < n; {
			i := x.ChooseF(len(ops)+1, 0, func(i int) string { return append([]string{"end"}, ops...)[i] })
			if i == 0 {
				break
			}
			seq = append(seq, ops[i-1])
		}
		dir := e2eBuild(x)
		if dir == "" {
			return
		}
		a := []string{filepath.Join(dir, "driver"), "-bin", filepath.Join(dir, "rangedb"), "-ops", strings.Join(seq, ",")}
		for _, s := range args {
			a = append(a, strings.ReplaceAll(s, "$BIN", dir))
		}
		x.Logf("%s", strings.Join(a, " "))
		out, err := command(dir, nil, a...)
		if err != nil || strings.TrimSpace(out) != "OK" {
			x.Fail("%s: %v", strings.TrimSpace(out), err)
		}
		x.Observe("%v", seq)
	}}
}

var e2eOps = strings.Fields("hs0 hs1 hs2 gs1 gs2 ho1 hw1 gw1 gd0 gd1 hd1 hd2 in ki db")

func init() {
	explore.Register(&explore.Property{ID: "C32", Level: "model_checking", Rule: seqRule, Assumptions: append([]string{
		"the programs run with the LevelDB and in-memory stores, over the loopback network, on a file system that keeps what a killed process has written",
		"a step is allowed half a minute, ending after an interrupt ten seconds",
	}, seqAssume...),
		Harnesses: []*explore.Harness{
			e2eHarness("server-ldb", "the server program over LevelDB: saves, refused saves and deletions through HTTP and gRPC, interrupts and kills with a restart; every read, list, page, link and subscription compared with a model",
				e2eOps, func() int { return explore.Tier(2, 4) }, "-disk"),
			e2eHarness("server-mem", "the server program with its in-memory store",
				strings.Fields("hs0 hs1 hs2 gs1 gs2 ho1 hw1 gw1 gd0 gd1 hd1 hd2"), func() int { return explore.Tier(1, 3) }),
			e2eHarness("subscriber", "the subscriber program while its connection is cut and the server restarts",
				strings.Fields("cu hs0 gs1 in ki"), func() int { return explore.Tier(3, 5) }, "-disk", "-watch", "$BIN/grpc-event-subscriber"),
			e2eHarness("subscriber-types", "the subscriber program for some aggregate types while its connection is cut and the server restarts",
				strings.Fields("cu hs0 gs1 hs2 in"), func() int { return explore.Tier(3, 4) }, "-disk", "-watch", "$BIN/grpc-event-subscriber", "-watched", "thing,a//b"),
		}})
}
