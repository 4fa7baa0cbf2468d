// Package explore is the exhaustive explorer: it enumerates every choice
// sequence (schedules, environment answers, operation alphabets) of a harness up
// to a deviation bound, in parallel worker processes, and reports violations.
package explore

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"sort"

	"verifmc/ctl"
)

// Harness is one closed driver that is explored exhaustively.
type Harness struct {
	Name string
	// Doc says what is enumerated and what the oracle is.
	Doc string
	Cfg ctl.Config
	// Quick and Thorough are the deviation bounds of the two tiers.
	Quick, Thorough int
	// ThoroughOnly harnesses are skipped in the quick tier.
	ThoroughOnly bool
	// ExecsPerGC forces a garbage collection after that many executions (0: by heap size).
	ExecsPerGC int
	Body       func(x *ctl.X)
}

// Property groups the harnesses that decide one property.
type Property struct {
	ID          string
	Level       string // evidence level
	Rule        string // how cases are made and what makes one non-trivial
	Assumptions []string
	Harnesses   []*Harness
}

var props = map[string]*Property{}

// Register adds a property.
func Register(p *Property) {
	if props[p.ID] != nil {
		panic("duplicate property " + p.ID)
	}
	seen := map[string]bool{}
	for _, h := range p.Harnesses {
		if seen[h.Name] {
			panic("duplicate harness " + h.Name)
		}
		seen[h.Name] = true
	}
	props[p.ID] = p
}

// IDs lists the registered properties.
func IDs() []string {
	var r []string
	for id := range props {
		r = append(r, id)
	}
	sort.Strings(r)
	return r
}

// Thorough reports whether the thorough tier is running.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Tier picks by tier.
func Tier(quick, thorough int) int {
	if Thorough() {
		return thorough
	}
	return quick
}

type task struct {
	Harness string   `json:"h"`
	Bound   int      `json:"b"`
	Items   []item   `json:"i"`
	MS      int      `json:"ms"`
	Careful bool     `json:"careful,omitempty"`
	Quit    bool     `json:"quit,omitempty"`
	Known   []string `json:"known,omitempty"`
}

type item struct {
	P []byte `json:"p"` // choice prefix
	H uint64 `json:"h"` // expected hash at the last prefix point (0: none)
}

type failure struct {
	Prefix []byte `json:"p"`
	Sig    string `json:"sig"`
	Msg    string `json:"msg"`
}

type reply struct {
	Execs    int64             `json:"e"`
	Nodes    int64             `json:"n"` // new decision points visited
	Steps    int64             `json:"s"` // scheduling steps executed
	Cases    int64             `json:"c"`
	Rest     []item            `json:"r"`
	Outcomes map[string]uint64 `json:"-"`
	NewOut   []outcome         `json:"o"`
	Fails    []failure         `json:"f"`
	Pruned   bool              `json:"p"`
	Diverged string            `json:"d,omitempty"`
	DivN     int64             `json:"dn,omitempty"`
	MaxPts   int               `json:"mp"`
	Bye      bool              `json:"bye,omitempty"`
	Err      string            `json:"err,omitempty"`
	At       []byte            `json:"at,omitempty"` // careful mode: about to run this prefix
	IsAt     bool              `json:"isat,omitempty"`
}

type outcome struct {
	Hash   uint64 `json:"h"`
	Text   string `json:"t"`
	Prefix []byte `json:"p"`
}

func toInts(b []byte) []int {
	r := make([]int, len(b))
	for i, c := range b {
		r[i] = int(c)
	}
	return r
}

func findHarness(prop, name string) (*Harness, error) {
	p := props[prop]
	if p == nil {
		return nil, fmt.Errorf("unknown property %q", prop)
	}
	for _, h := range p.Harnesses {
		if h.Name == name {
			return h, nil
		}
	}
	return nil, fmt.Errorf("unknown harness %q of %s", name, prop)
}

// Describe writes what each property's harnesses enumerate, as JSON.
func Describe(w io.Writer) {
	type hd struct {
		Name, Doc       string
		Quick, Thorough int
		ThoroughOnly    bool
	}
	type pd struct {
		ID, Rule    string
		Assumptions []string
		Harnesses   []hd
	}
	var l []pd
	for _, id := range IDs() {
		p := props[id]
		d := pd{ID: id, Rule: p.Rule, Assumptions: p.Assumptions}
		for _, h := range p.Harnesses {
			d.Harnesses = append(d.Harnesses, hd{h.Name, h.Doc, h.Quick, h.Thorough, h.ThoroughOnly})
		}
		l = append(l, d)
	}
	b, _ := json.MarshalIndent(l, "", " ")
	fmt.Fprintln(w, string(b))
}
