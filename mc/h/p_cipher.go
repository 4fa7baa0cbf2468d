package h

import (
	"bytes"
	crand "crypto/rand"
	"encoding/base64"
	"fmt"
	"io"
	"strings"

	"github.com/inklabs/rangedb/pkg/crypto"
	"github.com/inklabs/rangedb/pkg/crypto/aes"
	"github.com/inklabs/rangedb/pkg/crypto/eventencryptor"
	"github.com/inklabs/rangedb/pkg/crypto/provider/inmemorykeystore"
	"github.com/inklabs/rangedb/pkg/crypto/xchacha20poly1305"

	"verifmc/ctl"
	"verifmc/explore"
)

type cipherKind struct {
	name   string
	make   func() crypto.Encryptor
	keys   []int // valid key lengths
	authed bool
}

var cipherKinds = []cipherKind{
	{"aes-gcm", func() crypto.Encryptor { return aes.NewGCM() }, []int{16, 24, 32}, true},
	{"aes-cbc", func() crypto.Encryptor { return aes.NewCBCPKCS5Padding() }, []int{16, 24, 32}, false},
	{"xchacha20-poly1305", func() crypto.Encryptor { return xchacha20poly1305.New() }, []int{32}, true},
}

func validKey(c cipherKind, n int) bool {
	for _, k := range c.keys {
		if k == n {
			return true
		}
	}
	return false
}

func b64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

func testKey(n int, seed byte) []byte {
	k := make([]byte, n)
	for i := range k {
		k[i] = byte(i)*7 + seed
	}
	return k
}

func testText(n int, style int) string {
	switch style {
	case 0:
		return strings.Repeat("\x10", n) // looks like padding
	case 1:
		return strings.Repeat("0123456789abcdef", n/16+1)[:n]
	case 2:
		return strings.Repeat("é\x00\xff\x01", n/5+1)[:n] // any bytes
	}
	panic(style)
}

// noPanic runs f and reports a panic as a failure.
func noPanic(x *ctl.X, what func() string, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			x.FailSig("cipher-panic", "%s panics: %v", what(), r)
		}
	}()
	f()
	return true
}

// limitedReader fails after n bytes.
type limitedReader struct{ n int }

func (l *limitedReader) Read(p []byte) (int, error) {
	if l.n <= 0 {
		return 0, errSerialize
	}
	k := len(p)
	if k > l.n {
		k = l.n
	}
	for i := range p[:k] {
		p[i] = 0x5a
	}
	l.n -= k
	return k, nil
}

func cipherHarness() *explore.Harness {
	maxLen := func() int { return explore.Tier(40, 96) }
	return &explore.Harness{Name: "ciphers", ExecsPerGC: 4,
		Doc: "every cipher and valid key length, texts of every length 0..40 (thorough 96) in 3 styles: round trip, fresh ciphertext each time, every wrong-key byte change, every truncation, extensions up to 33 bytes, every single-byte change (thorough: to every value), every text-level base64 character change; no panic; authenticated ciphers reject everything that decodes to other bytes",
		Cfg: ctl.Config{MaxSteps: 50000000},
		Body: func(x *ctl.X) {
			c := cipherKinds[x.ChooseF(len(cipherKinds), 0, func(i int) string { return cipherKinds[i].name })]
			kl := c.keys[x.ChooseF(len(c.keys), 0, func(i int) string { return fmt.Sprint("key of ", c.keys[i], " bytes") })]
			style := x.ChooseF(3, 0, func(i int) string { return fmt.Sprint("text style ", i) })
			shards := 8
			shard := x.ChooseF(shards, 0, func(i int) string { return fmt.Sprintf("lengths %d mod %d", i, shards) })
			e := c.make()
			keyB := testKey(kl, 1)
			key := b64(keyB)
			cases := 0
			for n := shard; n <= maxLen(); n += shards {
				text := testText(n, style)
				seen := map[string]bool{}
				var ct string
				for i := 0; i < 3; i++ {
					var err error
					if !noPanic(x, func() string { return fmt.Sprintf("%s Encrypt of %q", c.name, text) }, func() { ct, err = e.Encrypt(key, text) }) {
						return
					}
					if err != nil {
						x.FailSig("encrypt", "%s: encrypting %q: %v", c.name, text, err)
						return
					}
					if seen[ct] {
						x.FailSig("repeat", "%s: two encryptions of %q are equal", c.name, text)
						return
					}
					seen[ct] = true
					got, err := e.Decrypt(key, ct)
					if err != nil || got != text {
						x.FailSig("roundtrip", "%s: decrypting an encryption of %q: %q, %v", c.name, text, got, err)
						return
					}
				}
				raw, err := base64.StdEncoding.DecodeString(ct)
				if err != nil {
					x.FailSig("encoding", "%s: ciphertext is not base64: %v", c.name, err)
					return
				}
				if n >= 8 && style == 1 && bytes.Contains(raw, []byte(text)) {
					x.FailSig("plain", "%s: ciphertext contains the text", c.name)
				}
				try := func(what string, k string, cts string, same bool) {
					if x.Failed() {
						return
					}
					cases++
					noPanic(x, func() string {
						return fmt.Sprintf("%s Decrypt of %s (text length %d, ciphertext %q)", c.name, what, n, cts)
					}, func() {
						got, err := e.Decrypt(k, cts)
						if err != nil {
							if got != "" {
								x.FailSig("partial", "%s: %s fails with %v and returns %q", c.name, what, err, got)
							}
							return
						}
						if same {
							if got != text {
								x.FailSig("altered", "%s: %s returns %q instead of %q without an error", c.name, what, got, text)
							}
							return
						}
						if c.authed {
							x.FailSig("accepted", "%s: %s is accepted and returns %q (text %q)", c.name, what, got, text)
						}
					})
				}
				mod := func(what string, b []byte) { try(what, key, b64(b), false) }
				for i := 0; i < len(raw); i++ {
					mod(fmt.Sprintf("the first %d of %d ciphertext bytes", i, len(raw)), raw[:i])
					if i > 0 {
						mod(fmt.Sprintf("the ciphertext without its first %d bytes", i), raw[i:])
					}
				}
				for i := 1; i <= 33; i++ {
					mod(fmt.Sprintf("the ciphertext followed by %d bytes", i), append(append([]byte(nil), raw...), bytes.Repeat([]byte{byte(i)}, i)...))
					mod(fmt.Sprintf("the ciphertext preceded by %d bytes", i), append(bytes.Repeat([]byte{byte(i)}, i), raw...))
				}
				mod("the ciphertext twice", append(append([]byte(nil), raw...), raw...))
				for i := range raw {
					for d := 1; d < 256; d++ {
						if !explore.Thorough() && d&(d-1) != 0 && d != 255 && i != len(raw)-1 && i != len(raw)-17 {
							continue
						}
						m := append([]byte(nil), raw...)
						m[i] ^= byte(d)
						mod(fmt.Sprintf("ciphertext with byte %d changed by %#x", i, d), m)
					}
				}
				for i := range ct {
					for _, r := range []byte("Aa0+/=\n -_\xff") {
						m := []byte(ct)
						if m[i] == r {
							continue
						}
						m[i] = r
						dec, err := base64.StdEncoding.DecodeString(string(m))
						try(fmt.Sprintf("base64 text with character %d set to %q", i, r), key, string(m), err == nil && bytes.Equal(dec, raw))
					}
				}
				for i := range keyB {
					for d := 1; d < 256; d <<= 1 {
						k := append([]byte(nil), keyB...)
						k[i] ^= byte(d)
						try(fmt.Sprintf("its ciphertext with byte %d of the key changed by %#x", i, d), b64(k), ct, false)
					}
				}
				for l := 0; l <= 40; l++ {
					if l == kl {
						continue
					}
					what := fmt.Sprintf("its ciphertext with a key of %d bytes", l)
					try(what, b64(testKey(l, 1)), ct, false)
					if !validKey(c, l) {
						noPanic(x, func() string { return c.name + " Encrypt with a key of " + fmt.Sprint(l) + " bytes" }, func() {
							if got, err := e.Encrypt(b64(testKey(l, 1)), text); err == nil || got != "" {
								x.FailSig("badkey", "%s: encrypting with a key of %d bytes returns %q, %v", c.name, l, got, err)
							}
						})
					}
				}
				for _, k := range []string{"", "=", "%%%", key[:len(key)-1], key + "A", "é", " " + key + "*"} {
					try(fmt.Sprintf("its ciphertext with the malformed key %q", k), k, ct, false)
					noPanic(x, func() string { return c.name + " Encrypt with key " + k }, func() {
						if got, err := e.Encrypt(k, text); err == nil || got != "" {
							x.FailSig("badkey", "%s: encrypting with the malformed key %q returns %q, %v", c.name, k, got, err)
						}
					})
				}
				for _, s := range []string{"", "a", "%%%", "====", "AAAA", "AA==", "é", "\x00", text} {
					try(fmt.Sprintf("the arbitrary input %q", s), key, s, false)
				}
				// A random source that fails must not lead to a fixed nonce.
				for f := 0; f <= 24; f++ {
					var got string
					var err error
					lr := &limitedReader{n: f}
					if s, ok := e.(interface{ SetRandReader(io.Reader) }); ok {
						s.SetRandReader(lr)
						got, err = e.Encrypt(key, text)
						s.SetRandReader(crand.Reader)
					} else {
						old := crand.Reader
						crand.Reader = lr
						got, err = e.Encrypt(key, text)
						crand.Reader = old
					}
					need := map[string]int{"aes-gcm": 12, "aes-cbc": 16, "xchacha20-poly1305": 24}[c.name]
					if f < need && (err == nil || got != "") {
						x.FailSig("nonce", "%s: encrypting with only %d random bytes returns %q, %v", c.name, f, got, err)
					}
					if f >= need {
						if back, derr := e.Decrypt(key, got); err != nil || derr != nil || back != text {
							x.FailSig("nonce", "%s: encrypting with %d random bytes: %v, %v", c.name, f, err, derr)
						}
					}
				}
				x.GC()
			}
			x.Count(cases)
			x.Observe("%s %d %d %d", c.name, kl, style, shard)
		}}
}

// shortHarness decrypts every short byte string over a small alphabet.
func shortHarness() *explore.Harness {
	return &explore.Harness{Name: "arbitrary", ExecsPerGC: 8,
		Doc: "decrypting every byte string of up to 3 (thorough 4) bytes of an alphabet of 6 repeated to lengths up to 80: an error or, for CBC only, a result; never a panic",
		Cfg: ctl.Config{MaxSteps: 50000000},
		Body: func(x *ctl.X) {
			c := cipherKinds[x.ChooseF(len(cipherKinds), 0, func(i int) string { return cipherKinds[i].name })]
			alpha := []byte{0, 1, 0x10, 0x11, 0x80, 0xff}
			l := explore.Tier(3, 4)
			pat := make([]byte, l)
			for i := range pat {
				pat[i] = alpha[x.ChooseF(len(alpha), 0, func(i int) string { return fmt.Sprintf("%#x", alpha[i]) })]
			}
			e := c.make()
			key := b64(testKey(32, 3))
			cases := 0
			for n := 0; n <= 80; n++ {
				b := bytes.Repeat(pat, n/l+1)[:n]
				cases++
				noPanic(x, func() string { return fmt.Sprintf("%s Decrypt of bytes %x", c.name, b) }, func() {
					got, err := e.Decrypt(key, b64(b))
					if err == nil && c.authed {
						x.FailSig("accepted", "%s accepts the bytes %x as %q", c.name, b, got)
					}
					if err != nil && got != "" {
						x.FailSig("partial", "%s: %x fails with %v and returns %q", c.name, b, err, got)
					}
				})
			}
			x.Count(cases)
			x.Observe("%s %x", c.name, pat)
		}}
}

// drawReader returns distinct bytes, at most chunk at a time, and fails after n.
type drawReader struct {
	n, chunk int
	given    []byte
}

func (r *drawReader) Read(p []byte) (int, error) {
	k := len(p)
	if k > r.chunk {
		k = r.chunk
	}
	if k > r.n-len(r.given) {
		k = r.n - len(r.given)
	}
	if k == 0 && len(p) > 0 {
		return 0, errSerialize
	}
	for i := range p[:k] {
		p[i] = byte(len(r.given) + 1)
		r.given = append(r.given, p[i])
	}
	return k, nil
}

// randomHarness checks where keys and nonces come from.
func randomHarness() *explore.Harness {
	return &explore.Harness{Name: "random", ExecsPerGC: 20,
		Doc: "the random source of the ciphers or of the event encryptor's new keys returns 1..40 bytes at a time and fails after 0..80: a new key consists of 32 of its bytes, a nonce or initialization vector of as many as the cipher needs, none used twice; if it fails, so does the encryption, and no key is stored",
		Cfg: ctl.Config{MaxSteps: 50000000},
		Body: func(x *ctl.X) {
			c := cipherKinds[x.ChooseF(len(cipherKinds), 0, func(i int) string { return cipherKinds[i].name })]
			chunk := 1 + x.ChooseF(40, 0, func(i int) string { return fmt.Sprint(i+1, " bytes at a time") })
			old := crand.Reader
			defer func() { crand.Reader = old }()
			for n := 0; n <= 80; n++ {
				what := fmt.Sprintf("%s, random source of %d bytes, %d at a time", c.name, n, chunk)
				// keys
				r := &drawReader{n: n, chunk: chunk}
				keys := inmemorykeystore.New()
				ee := eventencryptor.New(keys, c.make())
				ee.SetRandReader(r)
				ev := signedUp("a", 0)
				err := ee.Encrypt(ev)
				key, kerr := keys.Get("a")
				raw, _ := base64.StdEncoding.DecodeString(key)
				switch {
				case n < 32 && (err == nil || kerr == nil):
					x.FailSig("key", "%s: encrypting for the first time: %v, stored key %x", what, err, raw)
				case n >= 32 && (err != nil || kerr != nil || len(raw) != 32):
					x.FailSig("key", "%s: encrypting for the first time: %v, stored key %x, %v", what, err, raw, kerr)
				case n >= 32:
					for i, b := range raw {
						if !bytes.Contains(r.given, []byte{b}) || bytes.Count(raw, []byte{b}) > 1 {
							x.FailSig("key", "%s: byte %d of the stored key %x is not from the random source", what, i, raw)
							break
						}
					}
					back := *ev
					if err := ee.Decrypt(&back); err != nil || back != *signedUp("a", 0) {
						x.FailSig("key", "%s: decrypted %+v, %v", what, back, err)
					}
				}
				// nonces
				need := map[string]int{"aes-gcm": 12, "aes-cbc": 16, "xchacha20-poly1305": 24}[c.name]
				r = &drawReader{n: n, chunk: chunk}
				crand.Reader = r
				e := c.make()
				if s, ok := e.(interface{ SetRandReader(io.Reader) }); ok {
					s.SetRandReader(r)
				}
				var texts []string
				for i := 0; i < 3; i++ {
					before := len(r.given)
					text, err := e.Encrypt(b64(testKey(32, 1)), "text")
					if n-before < need != (err != nil) {
						x.FailSig("nonce", "%s: encryption %d: %v", what, i+1, err)
					}
					if err != nil {
						break
					}
					raw, _ := base64.StdEncoding.DecodeString(text)
					for k, b := range r.given[before:] {
						if k < need && !bytes.Contains(raw, []byte{b}) {
							x.FailSig("nonce", "%s: encryption %d does not use random byte %d: %x", what, i+1, k, raw)
							break
						}
					}
					if inList(texts, text) {
						x.FailSig("nonce", "%s: encryption %d repeats another", what, i+1)
					}
					texts = append(texts, text)
				}
				crand.Reader = old
			}
			x.Count(81)
			x.Observe("%s %d", c.name, chunk)
		}}
}

func init() {
	explore.Register(&explore.Property{ID: "C22", Level: "model_checking",
		Rule:        "one execution per cipher, key length, text style and slice of text lengths; each decrypts every modification within the bound; distinct by that choice, all non-trivial",
		Assumptions: []string{"Go's crypto primitives are correct", "texts, keys and modifications beyond the stated bounds behave like those within"},
		Harnesses:   []*explore.Harness{cipherHarness(), shortHarness(), randomHarness()}})
}
