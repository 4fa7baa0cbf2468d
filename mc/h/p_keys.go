package h

import (
	"errors"
	"fmt"
	"strings"

	"github.com/inklabs/rangedb/pkg/crypto"
	"github.com/inklabs/rangedb/pkg/crypto/aes"
	"github.com/inklabs/rangedb/pkg/crypto/cryptotest"
	"github.com/inklabs/rangedb/pkg/crypto/eventencryptor"
	"github.com/inklabs/rangedb/pkg/crypto/provider/cachekeystore"
	"github.com/inklabs/rangedb/pkg/crypto/provider/inmemorykeystore"

	"verifmc/ctl"
	"verifmc/explore"
)

// kop is one key store operation with its observed result.
type kop struct {
	kind, subj, key string

	thread    string
	call, ret int
	done      bool
	got       string
	err       error
}

func keyErr(err error) string {
	switch err {
	case nil:
		return "ok"
	case crypto.ErrKeyNotFound:
		return "not-found"
	case crypto.ErrKeyWasDeleted:
		return "deleted"
	case crypto.ErrKeyExistsForSubjectID:
		return "exists"
	case crypto.ErrKeyAlreadyUsed:
		return "used"
	case crypto.ErrInvalidKey:
		return "invalid"
	}
	return "other"
}

func (o *kop) String() string {
	s := fmt.Sprintf("%s(%q", o.kind, o.subj)
	if o.kind == "set" {
		s += ", " + o.key
	}
	s += ")"
	if o.thread != "" {
		s = fmt.Sprintf("%s[%d..%d] %s", o.thread, o.call, o.ret, s)
	}
	if o.done {
		s += fmt.Sprintf("=%s%s", o.got, keyErr(o.err))
		if keyErr(o.err) == "other" {
			s += fmt.Sprintf("(%v)", o.err)
		}
	}
	return s
}

func runKey(st crypto.KeyStore, o *kop) {
	switch o.kind {
	case "get":
		o.got, o.err = st.Get(o.subj)
	case "set":
		o.err = st.Set(o.subj, o.key)
	case "del":
		o.err = st.Delete(o.subj)
	}
	o.done = true
}

// kState is the reference: per subject "" unset, "=key" set, "-" deleted,
// "?" deleted while unset (whether that is remembered is not specified).
type kState struct {
	s      map[string]string
	used   map[string]bool // keys ever stored
	unique bool
	odd    func(string) bool
}

func newKState(k *keySys) *kState {
	return &kState{s: map[string]string{}, used: map[string]bool{}, unique: k.unique, odd: k.odd}
}

func (m *kState) clone() *kState {
	c := &kState{s: map[string]string{}, used: map[string]bool{}, unique: m.unique, odd: m.odd}
	for a, b := range m.s {
		c.s[a] = b
	}
	for a, b := range m.used {
		c.used[a] = b
	}
	return c
}

// apply checks o against the reference and advances it; "" when it agrees.
func (m *kState) apply(o *kop) string {
	st, e := m.s[o.subj], keyErr(o.err)
	if e == "other" && m.odd(o.subj) {
		return "" // refused
	}
	want := ""
	switch o.kind {
	case "get":
		switch {
		case st == "":
			want = "not-found"
		case st == "-":
			want = "deleted"
		case st == "?":
			if e == "not-found" || e == "deleted" {
				want = e
			} else {
				want = "not-found or deleted"
			}
		default:
			want = "ok"
			if o.err == nil && o.got != st[1:] {
				return fmt.Sprintf("%v: the stored key is %s", o, st[1:])
			}
		}
		if o.err != nil && o.got != "" {
			return fmt.Sprintf("%v: returns %q with an error", o, o.got)
		}
	case "set":
		inUse := false
		for s, v := range m.s {
			if s != o.subj && v == "="+o.key {
				inUse = true
			}
		}
		switch {
		case o.key == "":
			want = "invalid"
		case st == "?" && (e == "ok" || e == "exists" || e == "used" && m.used[o.key]):
			want = e
		case st != "" && st != "?":
			want = "exists"
			if e == "used" && m.used[o.key] {
				want = "used"
			}
		case inUse && m.unique:
			want = "used"
		case m.used[o.key]:
			want = "ok"
			if e == "used" {
				want = "used"
			}
		default:
			want = "ok"
		}
		if e == "ok" && e == want {
			m.s[o.subj] = "=" + o.key
			m.used[o.key] = true
		}
	case "del":
		want = "ok"
		if e == "ok" {
			if st == "" || st == "?" {
				m.s[o.subj] = "?"
			} else {
				m.s[o.subj] = "-"
			}
		}
	}
	if e != want {
		return fmt.Sprintf("%v: expected %s", o, want)
	}
	return ""
}

var otherSubjects = []string{"b", "", "A", "a?x", "a#x", "%61", "a/b", "a/../a", "a/", "./a", "a%2fb", "ä b", "a\x00"}

func keySeqHarness(kind string) *explore.Harness {
	subj := otherSubjects
	return &explore.Harness{Name: "seq-" + kind, ExecsPerGC: 200,
		Doc: fmt.Sprintf("every sequence of 4 (thorough: 5) operations over get, set with two keys and the empty key, and delete, of two subjects, for subject \"a\" and each of %d others; then both are looked up; every result compared with the unset/set/deleted reference machine", len(subj)),
		Cfg: ctl.Config{},
		Body: func(x *ctl.X) {
			other := subj[x.ChooseF(len(subj), 0, func(i int) string { return fmt.Sprintf("other subject %q", subj[i]) })]
			k := openKeys(x, kind, true)
			defer k.close()
			m := newKState(k)
			var hist []string
			do := func(o kop) {
				runKey(k.st, &o)
				hist = append(hist, o.String())
				if msg := m.apply(&o); msg != "" {
					x.FailSig("mismatch", "%s: %s (history: %s)", kind, msg, strings.Join(hist, "; "))
				}
				x.Observe("%s", o.String())
			}
			var alpha []kop
			for i, s := range []string{"a", other} {
				k1, k2 := "k1", "k2"
				if i == 1 && kind == "cache-postgres" {
					k1, k2 = "k3", "k4" // the layers differ in whether the key of a deleted subject may be used again
				}
				alpha = append(alpha, kop{kind: "get", subj: s}, kop{kind: "set", subj: s, key: k1}, kop{kind: "set", subj: s, key: k2}, kop{kind: "set", subj: s, key: ""}, kop{kind: "del", subj: s})
			}
			if k.second != nil {
				alpha = append(alpha, kop{kind: "second.set", subj: "a", key: "k1"})
			}
			depth := explore.Tier(4, 5)
			if other != "b" {
				depth = explore.Tier(3, 4)
			}
			for i := 0; i < depth && !x.Failed(); i++ {
				o := alpha[x.ChooseF(len(alpha), 0, func(i int) string { return alpha[i].String() })]
				if o.kind == "second.set" {
					// another process behind the same cache stores a key first
					o.kind = "set"
					if m.s["a"] == "" {
						err := k.second.Set("a", "k1")
						if err == nil {
							m.s["a"], m.used["k1"] = "=k1", true
						}
						hist = append(hist, fmt.Sprintf("second.set(a,k1)=%v", err))
					}
					continue
				}
				do(o)
			}
			if !x.Failed() {
				do(kop{kind: "get", subj: "a"})
				do(kop{kind: "get", subj: other})
				do(kop{kind: "get", subj: "a"})
			}
		}}
}

var keyScripts = [][]kop{
	{{kind: "set", subj: "a", key: "k1"}},
	{{kind: "set", subj: "a", key: "k2"}, {kind: "get", subj: "a"}},
	{{kind: "get", subj: "a"}},
	{{kind: "get", subj: "a"}, {kind: "get", subj: "a"}},
	{{kind: "del", subj: "a"}},
	{{kind: "del", subj: "a"}, {kind: "get", subj: "a"}},
	{{kind: "set", subj: "b", key: "k1"}},
	{{kind: "get", subj: "a"}, {kind: "set", subj: "a", key: "k3"}},
}

// keyConcHarness checks linearizability of concurrent key store use.
func keyConcHarness(kind string, n, quick, thorough int, stmt, only bool) *explore.Harness {
	return &explore.Harness{Name: fmt.Sprintf("conc%d-%s", n, kind), Quick: quick, Thorough: thorough, ThoroughOnly: only,
		Doc: fmt.Sprintf("every combination of %d threads over %d scripts of get, set and delete on colliding subjects, with subject a unset, stored (for the cache: only behind it), or stored and read before; all interleavings up to the preemption bound; oracle: linearizability against the reference machine, including final lookups", n, len(keyScripts)),
		Cfg: ctl.Config{Stmt: stmt, BlockCost: 1, SelectCost: 1, Families: true},
		Body: func(x *ctl.X) {
			lo := 0
			var scripts [][]kop
			for i := 0; i < n; i++ {
				l := lo
				c := x.ChooseF(len(keyScripts)-l, 0, func(c int) string {
					var s []string
					for _, o := range keyScripts[l+c] {
						s = append(s, o.String())
					}
					return strings.Join(s, ";")
				})
				scripts = append(scripts, keyScripts[l+c])
				lo += c
			}
			setup := x.ChooseF(3, 0, func(i int) string { return [...]string{"a unset", "a stored", "a stored and read"}[i] })
			k := openKeys(x, kind, true)
			defer k.close()
			m := newKState(k)
			if setup > 0 {
				st := k.st
				if k.second != nil && setup == 1 {
					st = k.second
				}
				if err := st.Set("a", "k0"); err != nil {
					x.Fail("setup: %v", err)
				}
				m.s["a"], m.used["k0"] = "=k0", true
				if setup == 2 {
					if _, err := k.st.Get("a"); err != nil {
						x.Fail("setup: %v", err)
					}
				}
			}
			tick := 0
			var ops []*kop
			run := func(th string, o kop) {
				p := &o
				p.thread = th
				if o.subj == "b" && o.kind == "set" && !k.unique {
					p.key = "k4" // one key for two subjects is not refused everywhere
				}
				ops = append(ops, p)
				tick++
				p.call = tick
				runKey(k.st, p)
				tick++
				p.ret = tick
			}
			x.Explore(true)
			for i, sc := range scripts {
				sc, th := sc, fmt.Sprintf("t%d", i)
				x.Go(th, func() {
					for _, o := range sc {
						run(th, o)
					}
				})
			}
			stuck := x.Quiesce()
			x.Explore(false)
			if len(stuck) > 0 {
				x.FailSig("stuck", "threads %v never finish: %s", stuck, x.Describe())
				return
			}
			run("final", kop{kind: "get", subj: "a"})
			run("final", kop{kind: "get", subj: "b"})
			run("final", kop{kind: "get", subj: "a"})
			var s []string
			for _, o := range ops {
				s = append(s, o.String())
			}
			x.Observe("%s", strings.Join(s, " "))
			if !linKeys(m, ops) {
				x.FailSig("not-linearizable", "%s: no order of these operations explains their results: %s", kind, strings.Join(s, " "))
			}
		}}
}

func linKeys(m *kState, ops []*kop) bool {
	if len(ops) == 0 {
		return true
	}
	for i, o := range ops {
		first := true
		for j, p := range ops {
			if i != j && p.ret < o.call {
				first = false
				break
			}
		}
		if !first {
			continue
		}
		c := m.clone()
		if c.apply(o) != "" {
			continue
		}
		rest := append(append([]*kop(nil), ops[:i]...), ops[i+1:]...)
		if linKeys(c, rest) {
			return true
		}
	}
	return false
}

// countReader is a deterministic source of distinct keys.
type countReader struct{ n byte }

func (c *countReader) Read(p []byte) (int, error) {
	c.n++
	for i := range p {
		p[i] = c.n
	}
	return len(p), nil
}

// encOp is one use of the event encryptor.
type encOp struct {
	kind      string // enc, dec, del
	subj      string
	thread    string
	call, ret int
	err       error
	ev        *cryptotest.CustomerSignedUp
}

// encryptHarness runs concurrent encryptions, decryptions and key deletions.
func encryptHarness(prop, kind string, quick, thorough int, only bool) *explore.Harness {
	first := prop == "C23"
	scripts := []string{"enc a", "enc a;dec a", "enc b", "enc b;dec b"}
	if !first {
		scripts = []string{"del a", "enc a", "dec a", "dec a;dec a", "del a;dec a", "del a;enc a", "dec b", "enc b;dec b", "two stores: dec a"}
	}
	n := 3
	if !first {
		n = 2
	}
	name := "first-encryption-" + kind
	if !first {
		name = "deletion-" + kind
	}
	return &explore.Harness{Name: name, Quick: quick, Thorough: thorough, ThoroughOnly: only,
		Doc: fmt.Sprintf("every combination of %d threads over the scripts %v using one event encryptor; all interleavings up to the preemption bound; oracle: encryption and decryption succeed unless a deletion of that subject began, fail with the deletion once it was acknowledged, never yield wrong plaintext, and everything encrypted is readable afterwards with the stored key unless deleted", n, scripts),
		Cfg: ctl.Config{BlockCost: 1, SelectCost: 1, Families: true},
		Body: func(x *ctl.X) {
			var picked []string
			lo := 0
			for i := 0; i < n; i++ {
				l := lo
				c := x.ChooseF(len(scripts)-l, 0, func(c int) string { return scripts[l+c] })
				picked = append(picked, scripts[l+c])
				lo += c
			}
			k := openKeys(x, kind, true)
			defer k.close()
			e := eventencryptor.New(k.st, aes.NewGCM())
			e.SetRandReader(&countReader{})
			e2 := eventencryptor.New(k.st, aes.NewGCM())
			e2.SetRandReader(&countReader{n: 100})
			mk := func(s string) *cryptotest.CustomerSignedUp {
				return &cryptotest.CustomerSignedUp{ID: s, Name: "name of " + s, Email: s + "@x", Status: "st"}
			}
			stored := map[string]*cryptotest.CustomerSignedUp{}
			if !first {
				for _, s := range []string{"a", "b"} {
					ev := mk(s)
					if err := e.Encrypt(ev); err != nil {
						x.Fail("setup: %v", err)
					}
					stored[s] = ev
				}
			}
			tick := 0
			var ops []*encOp
			run := func(th, what string) *encOp {
				o := &encOp{thread: th, kind: what[:3], subj: what[4:]}
				ops = append(ops, o)
				enc := e
				tick++
				o.call = tick
				switch o.kind {
				case "enc":
					o.ev = mk(o.subj)
					o.err = enc.Encrypt(o.ev)
					if o.err == nil {
						stored[o.subj] = o.ev
					}
				case "dec":
					if th == "t1" {
						enc = e2
					}
					src := stored[o.subj]
					if src == nil {
						src = mk(o.subj)
						break
					}
					c := *src
					o.ev = &c
					o.err = enc.Decrypt(o.ev)
				case "del":
					o.err = k.st.Delete(o.subj)
				}
				tick++
				o.ret = tick
				return o
			}
			x.Explore(true)
			for i, sc := range picked {
				sc, th := strings.TrimPrefix(sc, "two stores: "), fmt.Sprintf("t%d", i)
				x.Go(th, func() {
					for _, w := range strings.Split(sc, ";") {
						run(th, w)
					}
				})
			}
			stuck := x.Quiesce()
			x.Explore(false)
			if len(stuck) > 0 {
				x.FailSig("stuck", "threads %v never finish: %s", stuck, x.Describe())
				return
			}
			var made []*encOp
			for _, o := range ops {
				if o.kind == "enc" && o.err == nil {
					made = append(made, o)
				}
			}
			run("final", "dec a")
			run("final", "enc a")
			run("final", "dec b")
			var s []string
			for _, o := range ops {
				s = append(s, fmt.Sprintf("%s[%d..%d] %s %s=%v", o.thread, o.call, o.ret, o.kind, o.subj, o.err))
			}
			hist := strings.Join(s, "; ")
			x.Observe("%s", hist)
			deletion := func(subj string, before int, acked bool) bool {
				for _, d := range ops {
					if d.kind == "del" && d.subj == subj && d.err == nil && (acked && d.ret < before || !acked && d.call < before) {
						return true
					}
				}
				return false
			}
			for _, o := range ops {
				switch o.kind {
				case "del":
					if o.err != nil {
						x.FailSig("delete-error", "%s: deletion fails with %v: %s", kind, o.err, hist)
					}
				case "enc", "dec":
					if o.ev == nil {
						continue
					}
					if o.err == nil && deletion(o.subj, o.call, true) {
						x.FailSig("after-deletion", "%s: %s of %s succeeds after the deletion was acknowledged: %s", kind, o.kind, o.subj, hist)
					}
					if o.err != nil && (!deletion(o.subj, o.ret, false) || o.err != crypto.ErrKeyWasDeleted) {
						x.FailSig("error", "%s: %s of %s fails with %v: %s", kind, o.kind, o.subj, o.err, hist)
					}
					want := mk(o.subj)
					if o.kind == "dec" && o.err == nil && *o.ev != *want {
						x.FailSig("wrong-plaintext", "%s: decryption of %s yields %+v: %s", kind, o.subj, *o.ev, hist)
					}
					if o.kind == "dec" && o.err != nil && (o.ev.Name == want.Name || o.ev.Email == want.Email) {
						x.FailSig("leak", "%s: failed %s leaves plaintext in the event: %+v: %s", kind, o.kind, *o.ev, hist)
					}
					if o.kind == "enc" && o.err == nil && (strings.Contains(o.ev.Name, "name of") || strings.Contains(o.ev.Email, "@x")) {
						x.FailSig("plaintext", "%s: encryption leaves plaintext %+v: %s", kind, *o.ev, hist)
					}
				}
			}
			for _, o := range made {
				c := *o.ev
				err := e.Decrypt(&c)
				if deletion(o.subj, o.ret, false) || deletion(o.subj, 1<<30, true) {
					if err == nil {
						x.FailSig("after-deletion", "%s: data of %s is readable after its key was deleted: %s", kind, o.subj, hist)
					}
					continue
				}
				if err != nil || c != *mk(o.subj) {
					x.FailSig("unreadable", "%s: data %s encrypted successfully (%s) cannot be decrypted: %+v, %v: %s", kind, o.subj, o.thread, c, err, hist)
				}
			}
		}}
}

// faultKeys fails chosen calls of a layer, before or after their effect.
type faultKeys struct {
	crypto.KeyStore
	at    int // index of the failing call, -1 none
	n     int
	after bool
	layer string
}

var errLayer = errors.New("layer unavailable")

func (f *faultKeys) hit() bool { f.n++; return f.n-1 == f.at }

func (f *faultKeys) Get(s string) (string, error) {
	if f.hit() {
		return "", errLayer
	}
	return f.KeyStore.Get(s)
}
func (f *faultKeys) Set(s, k string) error {
	if f.hit() {
		if f.after {
			_ = f.KeyStore.Set(s, k)
		}
		return errLayer
	}
	return f.KeyStore.Set(s, k)
}
func (f *faultKeys) Delete(s string) error {
	if f.hit() {
		if f.after {
			_ = f.KeyStore.Delete(s)
		}
		return errLayer
	}
	return f.KeyStore.Delete(s)
}

// layerFaultHarness enumerates single faults of the layers of a caching key store.
func layerFaultHarness() *explore.Harness {
	return &explore.Harness{Name: "layer-faults", ExecsPerGC: 200,
		Doc: "every sequence of 4 (thorough: 5) of {encrypt a, decrypt a, delete a, encrypt b, decrypt b} on a caching key store whose first or second layer fails one call, at every position, before or after its effect (or never); oracle: an operation without a fault behaves as usual, a deletion whose layer failed reports it, after an acknowledged deletion nothing of the subject is readable or encryptable, everything encrypted stays readable, the other subject is unaffected, and a repeated deletion succeeds",
		Cfg: ctl.Config{},
		Body: func(x *ctl.X) {
			alpha := []string{"enc a", "dec a", "del a", "enc b", "dec b"}
			depth := explore.Tier(4, 5)
			layer := x.ChooseF(2, 0, func(i int) string { return [...]string{"first", "second"}[i] + " layer fails" })
			at := x.ChooseF(3*depth+1, 0, func(i int) string { return fmt.Sprintf("at call %d", i) })
			after := x.ChooseF(2, 0, func(i int) string { return [...]string{"before", "after"}[i] + " its effect" }) == 1
			prefill := x.ChooseF(2, 0, func(i int) string { return [...]string{"empty", "a stored behind the cache"}[i] }) == 1
			second := inmemorykeystore.New()
			f1 := &faultKeys{KeyStore: &forgetfulKeys{}, at: -1, after: after}
			f2 := &faultKeys{KeyStore: second, at: -1, after: after}
			f := [...]*faultKeys{f1, f2}[layer]
			f.at = at
			ks := cachekeystore.New(f1, f2)
			e := eventencryptor.New(ks, aes.NewGCM())
			e.SetRandReader(&countReader{})
			mk := func(s string) *cryptotest.CustomerSignedUp {
				return &cryptotest.CustomerSignedUp{ID: s, Name: "name of " + s, Email: s + "@x", Status: "st"}
			}
			stored := map[string][]*cryptotest.CustomerSignedUp{}
			if prefill {
				pe := eventencryptor.New(second, aes.NewGCM())
				ev := mk("a")
				if err := pe.Encrypt(ev); err != nil {
					x.Fail("setup: %v", err)
				}
				stored["a"] = append(stored["a"], ev)
			}
			var hist []string
			acked, tried := false, false
			do := func(what string) {
				subj := what[4:]
				faulted := func(before int) bool { return f.at >= before && f.at < f.n }
				before := f.n
				var err error
				switch what[:3] {
				case "enc":
					ev := mk(subj)
					err = e.Encrypt(ev)
					hist = append(hist, fmt.Sprintf("%s=%v", what, err))
					switch {
					case err == nil && subj == "a" && acked:
						x.FailSig("after-deletion", "encryption succeeds after the deletion: %v", hist)
					case err == nil:
						stored[subj] = append(stored[subj], ev)
					case faulted(before), subj == "a" && tried:
					default:
						x.FailSig("error", "encryption fails without a fault: %v", hist)
					}
				case "dec":
					for _, ev := range stored[subj] {
						before := f.n
						c := *ev
						err = e.Decrypt(&c)
						hist = append(hist, fmt.Sprintf("%s=%v", what, err))
						switch {
						case err == nil && subj == "a" && acked:
							x.FailSig("after-deletion", "decryption succeeds after the deletion: %v", hist)
						case err == nil && c != *mk(subj):
							x.FailSig("wrong-plaintext", "decryption yields %+v: %v", c, hist)
						case err != nil && !faulted(before) && !(subj == "a" && tried):
							x.FailSig("unreadable", "decryption fails without a fault (%v): %v", err, hist)
						case err != nil && subj == "a" && acked && !faulted(before) && err != crypto.ErrKeyWasDeleted:
							x.FailSig("not-reported", "decryption after the deletion reports %v: %v", err, hist)
						}
					}
				case "del":
					had := len(stored["a"]) > 0
					err = ks.Delete("a")
					hist = append(hist, fmt.Sprintf("%s=%v", what, err))
					if had {
						tried = true
					}
					if err == nil && faulted(before) {
						x.FailSig("unreported-failure", "a layer failed and the deletion reports success: %v", hist)
					}
					if err != nil && !faulted(before) {
						x.FailSig("error", "deletion fails without a fault: %v", hist)
					}
					if err == nil && had {
						acked = true
					}
					if !had {
						// deleting an unknown subject: whether it is remembered is not specified
						tried = true
					}
				}
			}
			for i := 0; i < depth && !x.Failed(); i++ {
				w := alpha[x.ChooseF(len(alpha), 0, func(i int) string { return alpha[i] })]
				do(w)
			}
			for _, w := range []string{"dec a", "dec b", "del a", "dec a", "enc a", "dec b", "enc b"} {
				if !x.Failed() {
					do(w)
				}
			}
			x.Observe("%s", strings.Join(hist, ";"))
		}}
}

// forgetfulKeys does not remember the deletion of a subject it never knew, as
// the PostgreSQL and Vault key stores.
type forgetfulKeys struct{ m map[string]string }

func (f *forgetfulKeys) Get(s string) (string, error) {
	k, ok := f.m[s]
	if !ok {
		return "", crypto.ErrKeyNotFound
	}
	if k == "" {
		return "", crypto.ErrKeyWasDeleted
	}
	return k, nil
}
func (f *forgetfulKeys) Set(s, k string) error {
	if k == "" {
		return crypto.ErrInvalidKey
	}
	if _, ok := f.m[s]; ok {
		return crypto.ErrKeyExistsForSubjectID
	}
	if f.m == nil {
		f.m = map[string]string{}
	}
	f.m[s] = k
	return nil
}
func (f *forgetfulKeys) Delete(s string) error {
	if _, ok := f.m[s]; ok {
		f.m[s] = ""
	}
	return nil
}

// pgKeys configures the harnesses of kinds that use PostgreSQL.
func pgKeys(kind string, hs ...*explore.Harness) []*explore.Harness {
	if strings.HasSuffix(kind, "postgres") {
		for _, h := range hs {
			if h.Quick > 1 {
				h.Quick = 1
			}
			pgCfg(h)
		}
	}
	return hs
}

func init() {
	assume := []string{
		"DynamoDB and Vault are represented by in-process servers for the requests the key stores send (conditional put, update expression, eventually consistent reads; KV version 2 with check-and-set and destroy)",
		"deleting the key of a subject that has none may or may not be remembered",
		"PostgreSQL is represented by the stand-in described at C28",
		"DynamoDB and Vault cannot refuse one key for two subjects (the repository's own contract test for it is skipped)",
	}
	p23 := &explore.Property{ID: "C23", Level: "model_checking", Rule: concRule + "; " + seqRule, Assumptions: append(append([]string{}, concAssume...), assume...)}
	for _, k := range []string{"memory", "cache", "cache-forgetful", "dynamodb", "vault", "postgres", "cache-postgres"} {
		p23.Harnesses = append(p23.Harnesses, pgKeys(k, keySeqHarness(k))...)
	}
	for _, k := range []string{"memory", "cache", "cache-forgetful", "cache-dynamodb", "dynamodb", "vault", "postgres", "cache-postgres"} {
		p23.Harnesses = append(p23.Harnesses, pgKeys(k, keyConcHarness(k, 2, 2, 4, false, false), keyConcHarness(k, 3, 2, 3, false, true))...)
		p23.Harnesses = append(p23.Harnesses, pgKeys(k, encryptHarness("C23", k, 2, 3, false))...)
	}
	explore.Register(p23)
	p21 := &explore.Property{ID: "C21", Level: "model_checking", Rule: concRule + "; " + seqRule, Assumptions: append(append([]string{}, concAssume...), assume...)}
	for _, k := range []string{"memory", "cache", "cache-forgetful", "cache-dynamodb", "dynamodb", "vault", "postgres", "cache-postgres"} {
		p21.Harnesses = append(p21.Harnesses, pgKeys(k, encryptHarness("C21", k, 2, 4, false))...)
	}
	p21.Harnesses = append(p21.Harnesses, layerFaultHarness(), deletionSeqHarness("memory"), deletionSeqHarness("cache"))
	explore.Register(p21)
}
