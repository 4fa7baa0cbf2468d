package h

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"strings"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/crypto/eventencryptor"
	"github.com/inklabs/rangedb/pkg/crypto/provider/inmemorykeystore"
	"github.com/inklabs/rangedb/pkg/rangedberror"
	"github.com/inklabs/rangedb/provider/encryptedstore"
	"github.com/inklabs/rangedb/provider/remotestore"

	"verifmc/ctl"
	"verifmc/explore"
)

var conflictNumbers = []uint64{0, 1, 2, 9, 10, 99, 100, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<53 - 1, 1<<53 + 1, 1<<63 - 1, 1 << 63, 1<<63 + 1, 9999999999999999999, 10000000000000000000, math.MaxUint64 - 1, math.MaxUint64}

// (texts before and after the error's own text; the text after must not continue the number)
var beforeTexts = []string{"", " ", "x: ", "unable to save to store: ", "rpc error: code = Internal desc = unable to save to store: ", "17, actual: 3 ", "unexpected sequence number: ", "unexpected sequence number: x, actual: y: ", "unexpected sequence number: 5: ", "unexpected sequence number", "%d %s %v ", "line\nline\n", "\x00", "é日本"}
var afterTexts = []string{"", " ", ".", ", actual: 7", ": unexpected sequence number", " 42", "\n", "x", "%!d", "e5", ".5", ",000", "_000", "\"}", ": unexpected sequence number: 5", " unexpected sequence number: none, actual: 2", "; unexpected sequence number: "}

func conflictTextHarness() *explore.Harness {
	return &explore.Harness{Name: "text",
		Doc: fmt.Sprintf("all pairs of %d numbers, in their text with each of %d texts before and %d texts after: parsed to the same pair", len(conflictNumbers), len(beforeTexts), len(afterTexts)),
		Body: func(x *ctl.X) {
			pre := beforeTexts[x.ChooseF(len(beforeTexts), 0, func(i int) string { return fmt.Sprintf("after %q", beforeTexts[i]) })]
			post := afterTexts[x.ChooseF(len(afterTexts), 0, func(i int) string { return fmt.Sprintf("before %q", afterTexts[i]) })]
			for _, e := range conflictNumbers {
				for _, a := range conflictNumbers {
					in := &rangedberror.UnexpectedSequenceNumber{Expected: e, ActualSequenceNumber: a}
					out := rangedberror.NewUnexpectedSequenceNumberFromString(pre + in.Error() + post)
					if out == nil || *out != *in {
						x.FailSig("number", "%q is read as %+v", pre+in.Error()+post, out)
						return
					}
				}
			}
			x.Count(len(conflictNumbers) * len(conflictNumbers))
			x.Observe("%q %q", pre, post)
		}}
}

// (failures that are no conflicts)
var otherErrors = []error{errRead, io.EOF, context.Canceled, context.DeadlineExceeded, rangedb.ErrStreamNotFound, errors.New(""), errors.New("unexpected sequence"), errors.New("sequence number: 1, actual: 2"),
	errors.New("the unexpected sequence number was not written"), errors.New("unexpected sequence number: none, actual: none"), errors.New("unexpected sequence number: 1"), errors.New("unexpected sequence number: 1, actual: "),
	errors.New("unexpected sequence number: -1, actual: 2"), errors.New("unexpected sequence number: 1, actual: 18446744073709551616")}

func conflictHarness() *explore.Harness {
	ways := []string{"the remote store", "the HTTP API", "the encrypting store", "the encrypting store and the remote store", "the encrypting store and the HTTP API"}
	wraps := []string{"%w", "unable to save: %w", "%w (after 3 tries)", "unexpected sequence number: %w", "%w, not the usual unexpected sequence number: none"}
	return &explore.Harness{Name: "clients", ExecsPerGC: 50, Cfg: remoteCfg(),
		Doc: fmt.Sprintf("the store fails an optimistic save or delete with a conflict of every pair of %d numbers, in each of %d wrappings, or with each of %d errors that are no conflict; the client of the remote store, HTTP API or encrypting store sees the conflict with its numbers if and only if it was one", len(conflictNumbers), len(wraps), len(otherErrors)),
		Body: func(x *ctl.X) {
			way := x.ChooseF(len(ways), 0, func(i int) string { return ways[i] })
			wrap := x.ChooseF(len(wraps)+1, 0, func(i int) string {
				if i == len(wraps) {
					return "no conflicts"
				}
				return wraps[i]
			})
			f := &faultyStore{Store: openStore(x, "mem", false).St}
			var st rangedb.Store = f
			if way >= 2 {
				ee := eventencryptor.New(inmemorykeystore.New(), encCiphers[0].mk())
				ee.SetRandReader(&countReader{})
				st = encryptedstore.New(f, ee)
			}
			switch way {
			case 0, 3:
				conn, stop, ok := dialServer(x, st)
				if !ok {
					return
				}
				defer func() { stop(); x.Quiesce() }()
				r, err := remotestore.New(conn)
				if err != nil {
					x.Fail("remote store: %v", err)
					return
				}
				st = r
			case 1, 4:
				h := newHTTPStore(x, st)
				if h == nil {
					return
				}
				st = h
			}
			errs := otherErrors
			if wrap < len(wraps) {
				errs = nil
				for _, e := range conflictNumbers {
					for _, a := range conflictNumbers {
						errs = append(errs, fmt.Errorf(wraps[wrap], &rangedberror.UnexpectedSequenceNumber{Expected: e, ActualSequenceNumber: a}))
					}
				}
			}
			er := &rangedb.EventRecord{Event: &Ev{Typ: "ta", ID: "1", P: "p"}}
			for _, err := range errs {
				f.err = err
				want := errKind(err)
				_, e1 := st.OptimisticSave(bgCtx, 1, "ta!1", er)
				e2 := st.OptimisticDeleteStream(bgCtx, 1, "ta!1")
				for i, got := range []error{e1, e2} {
					op := []string{"OptimisticSave", "OptimisticDeleteStream"}[i]
					conflict := strings.HasPrefix(want, "unexpected")
					if got == nil || conflict && errKind(got) != want || !conflict && strings.HasPrefix(errKind(got), "unexpected") {
						x.FailSig("kind", "%s that fails with %q (%s) in the store returns %v (%s) through %s", op, err, want, got, errKind(got), ways[way])
						return
					}
				}
			}
			x.Count(len(errs))
			x.Observe("%d %d", way, wrap)
		}}
}

func init() {
	explore.Register(&explore.Property{ID: "C27", Level: "model_checking", Rule: seqRule, Assumptions: append([]string{"the text around a conflict does not itself contain another complete one"}, seqAssume...),
		Harnesses: []*explore.Harness{conflictTextHarness(), conflictHarness()}})
}
