package h

import (
	"golang.org/x/net/html"

	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/url"
	"regexp"
	"strconv"
	"strings"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/projection"
	"github.com/inklabs/rangedb/pkg/rangedbui"

	"verifmc/ctl"
	"verifmc/explore"
)

var markup = []string{"thing", "a b", "<b>x</b>", "</td><script>alert(1)</script>", "</script><script>alert(1)</script>", "<!--", "--><i>", "\"onclick=x\"", "'onclick='x'", "a&b", "&lt;i&gt;", "&amp;",
	"${alert(1)}", "{{.}}", "{{1}}", "javascript:alert(1)", "');alert(1);//", "\\'+x+\\'", "\\", "a/b", "/", "//host/x", "a?b=c", "a#b", "100%", "a%2Fb", "a%20b", "+", "a+b", "é日本", "a\nb", "a\tb", "\u2028", "`x`", "a,b", "=1+1", "[x]", "ws://x", "%s%d", ";x", "..a", "'", "\"", "<", ">", "&", "\x7f"}

var jsEscRx = regexp.MustCompile(`\\u([0-9a-fA-F]{4})|\\x([0-9a-fA-F]{2})|\\(.)`)

// jsString reads the text between the quotes of a script's string.
func jsString(lit string) string {
	return jsEscRx.ReplaceAllStringFunc(lit, func(m string) string {
		switch m[1] {
		case 'u', 'x':
			v, _ := strconv.ParseUint(m[2:], 16, 32)
			return string(rune(v))
		case 'n':
			return "\n"
		case 't':
			return "\t"
		}
		return m[1:]
	})
}

var wsRx = regexp.MustCompile(`(?s)new WebSocket\('((?:[^'\\\n]|\\.)*)'\);`)

func uiNamesHarness() *explore.Harness {
	const benign = "thing"
	return &explore.Harness{Name: "names", ExecsPerGC: 50, Cfg: ctl.Config{Background: bgLevelDB, MaxSteps: 50000000},
		Doc: fmt.Sprintf("each of %d texts (markup, quotes, template and script syntax, reserved URL characters, control characters) as the stream name, aggregate type, event type, and data of an event, one or all at once: every page (all types, live, one type, one stream) shows exactly the text, has the elements, attributes, comments and scripts of a page with harmless text and nothing more, nothing that the live pages' script would interpret, and its links lead to the page of that name", len(markup)),
		Body: func(x *ctl.X) {
			m := markup[x.ChooseF(len(markup), 0, func(i int) string { return fmt.Sprintf("%q", markup[i]) })]
			where := x.ChooseF(6, 0, func(i int) string {
				return []string{"everywhere", "stream name", "aggregate type", "event type", "data", "metadata"}[i]
			})
			pages := func(m string, typ string) (typeName, stream string, ps map[string]*uiPage, u *uiSys, st rangedb.Store, clean func()) {
				v := func(k int, d string) string {
					if where == 0 || where == k {
						return m
					}
					return d
				}
				e := openStore(x, "mem", false)
				u = newUI(x, e.St)
				clean = func() { u.stop(); x.Quiesce(); e.Close() }
				stream, typeName = v(1, "s"), v(2, "t")
				ers := []*rangedb.EventRecord{{Event: rangedb.NewRawEvent(typeName, "1", v(3, "E"), map[string]interface{}{"k" + v(4, "k"): v(4, "d"), "l": []interface{}{v(4, "d"), 1}}), Metadata: v(5, "m")},
					{Event: rangedb.NewRawEvent(typeName, "1", v(3, "E"), v(4, "d"))}}
				if _, err := e.St.Save(bgCtx, stream, ers...); err != nil {
					x.FailSig("save", "%v", err)
				}
				x.Quiesce()
				ps = map[string]*uiPage{"types": u.get("/aggregate-types"), "live": u.get("/aggregate-types/live"), "type": u.get("/a/" + url.PathEscape(typeName) + "?itemsPerPage=1"),
					"type live": u.get("/a/" + url.PathEscape(typeName) + "/live"), "stream": u.get("/s/" + url.PathEscape(stream) + "?itemsPerPage=1")}
				return typeName, stream, ps, u, e.St, clean
			}
			_, _, want, _, _, clean := pages(benign, "t")
			clean()
			typ, stream, got, u, st, clean := pages(m, "t")
			defer clean()
			recs := allRecords(st.Events(bgCtx, 0))
			for name, p := range got {
				w := want[name]
				if p.code != 200 {
					x.FailSig("status", "page %s with %q is answered with %d", name, m, p.code)
					return
				}
				if p.outline != w.outline {
					x.FailSig("markup", "page %s with %q has elements that it would not have with %q: %s", name, m, benign, diffAt(p.outline, w.outline))
				}
				if fmt.Sprint(p.vue) != fmt.Sprint(w.vue) {
					x.FailSig("expression", "the script of page %s with %q would interpret %q, with %q only %q", name, m, p.vue, benign, w.vue)
				}
				if len(p.scripts) != len(w.scripts) {
					x.FailSig("markup", "page %s with %q has %d scripts", name, m, len(p.scripts))
					return
				}
				for i := range p.scripts {
					ws := wsRx.FindStringSubmatch(p.scripts[i])
					if ws == nil || wsRx.ReplaceAllString(p.scripts[i], "WS") != wsRx.ReplaceAllString(w.scripts[i], "WS") {
						x.FailSig("script", "the script of page %s changes with %q: %s", name, m, diffAt(p.scripts[i], w.scripts[i]))
						return
					}
					ref, err := url.Parse(jsString(ws[1]))
					wantPath := "/live/aggregate-types"
					if name == "type live" {
						wantPath = "/live/a/" + typ
					}
					if err != nil || ref.Scheme != "ws" || ref.Host != "host" || ref.Path != wantPath || ref.RawQuery != "" || ref.Fragment != "" {
						x.FailSig("socket", "page %s with %q connects to %q (%v), not to the path %q", name, m, jsString(ws[1]), err, wantPath)
					}
				}
			}
			if x.Failed() {
				return
			}
			text := func(s string) string { return strings.Trim(browserText(s), " \n\t") }
			titles := map[string]string{"types": "Aggregate Types", "live": "Aggregate Types", "type": typ, "type live": typ, "stream": stream}
			for name, p := range got {
				if text(p.title) != text(titles[name]) {
					x.FailSig("title", "page %s is entitled %q, not %q", name, p.title, titles[name])
				}
			}
			if !inList(got["type"].crumbs, text(typ)+" (2)") || !inList(got["type live"].crumbs, text(typ)) || !inList(got["stream"].crumbs, text(stream)+" (2)") {
				x.FailSig("heading", "headings %q, %q and %q of the pages of type %q and stream %q", got["type"].crumbs, got["type live"].crumbs, got["stream"].crumbs, typ, stream)
			}
			if p := got["types"]; len(p.rows) != 1 || p.rows[0][0] != browserText(typ) || p.rows[0][1] != "2" {
				x.FailSig("types", "the list of types is %q, not %q 2", p.rows, typ)
				return
			}
			follow := func(what, link, kind, name string, rows []*rangedb.Record) {
				p := u.get(link)
				if p.code != 200 || text(p.title) != text(name) {
					x.FailSig("link", "the %s link %q leads to a page %d %q, not to that of %s %q", what, link, p.code, p.title, kind, name)
				} else if d := rowsDiff(p.rows, rows); d != "" {
					x.FailSig("link", "the %s link %q leads to a page that %s", what, link, d)
				}
			}
			for k, p := range got {
				for _, l := range pageLinks(p.doc) {
					if strings.HasPrefix(l, "/a/") || strings.HasPrefix(l, "/s/") {
						want := map[bool]string{true: typ, false: stream}[l[1] == 'a']
						if q := u.get(l); q.code != 200 || text(q.title) != text(want) {
							x.FailSig("link", "the link %q on the %s page leads to a page %d %q, not to that of %q", l, k, q.code, q.title, want)
						}
					}
				}
			}
			follow("type list", got["types"].links[0][0], "type", typ, recs)
			for _, k := range []string{"type", "stream"} {
				p := got[k]
				if d := rowsDiff(p.rows, recs[:1]); d != "" {
					x.FailSig("records", "the %s page with %q %s", k, m, d)
					continue
				}
				follow("type", p.links[0][3], "type", typ, recs)
				follow("stream", p.links[0][4], "stream", stream, recs)
				if p.next == "" {
					x.FailSig("links", "the %s page with %q has no next page", k, m)
					continue
				}
				follow("next", p.next, k, map[string]string{"type": typ, "stream": stream}[k], recs[1:])
				follow("previous", u.get(p.next).prev, k, map[string]string{"type": typ, "stream": stream}[k], recs[:1])
			}
			x.Observe("%q %d", m, where)
		}}
}

// pageLinks are the links in a page.
func pageLinks(n *html.Node) (out []string) {
	if n.Data == "a" && hasAttr(n, "href") {
		out = append(out, attr(n, "href"))
	}
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		out = append(out, pageLinks(c)...)
	}
	return out
}

func diffAt(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := max(0, i-60)
	return fmt.Sprintf("%q instead of %q", a[lo:min(len(a), i+100)], b[lo:min(len(b), i+100)])
}

// uiValuesHarness: data of every kind, counts and types.
func uiValuesHarness() *explore.Harness {
	return &explore.Harness{Name: "values", ExecsPerGC: 50, Cfg: ctl.Config{Background: bgLevelDB, MaxSteps: 50000000},
		Doc: "1 to 3 events of each kind of data (wide events, generic and raw payloads) by in-memory and LevelDB stores, bound and unbound, plain and compressed: the pages of the type and stream show them as the store reads them",
		Body: func(x *ctl.X) {
			kinds := []string{"mem", "ldb", "ldb-mp"}
			kind := kinds[x.ChooseF(3, 0, func(i int) string { return kinds[i] + " store" })]
			var evs []rangedb.Event
			evs = append(evs, boundData()...)
			for i, g := range genericData() {
				if g != nil {
					evs = append(evs, rangedb.NewRawEvent("wide", fmt.Sprint("g", i), "Unknown", g))
				}
			}
			ei := x.ChooseF(len(evs), 0, func(i int) string { return fmt.Sprintf("event %.100s", js(evs[i])) })
			n := x.ChooseF(3, 0, func(i int) string { return fmt.Sprintf("%d times", i+1) }) + 1
			bound := x.ChooseF(2, 0, func(i int) string { return []string{"unbound", "bound"}[i] }) == 1
			e := openStore(x, kind, false)
			defer e.Close()
			if bound {
				e.St.Bind(&wideEv{})
			}
			u := newUI(x, e.St)
			defer func() { u.stop(); x.Quiesce() }()
			for i := 0; i < n; i++ {
				if _, err := e.St.Save(bgCtx, "w!1", &rangedb.EventRecord{Event: evs[ei], Metadata: i}); err != nil {
					x.FailSig("save", "%v", err)
					return
				}
			}
			x.Quiesce()
			for _, l := range []string{"/a/wide", "/s/w!1"} {
				p := u.get(l, "Accept-Encoding", []string{"", "gzip"}[ei%2])
				if d := rowsDiff(p.rows, allRecords(e.St.Events(bgCtx, 0))); p.code != 200 || d != "" {
					x.FailSig("records", "%s: %d, %s", l, p.code, d)
				}
			}
			x.Observe("%d %d", ei, n)
		}}
}

// uiTypesHarness: histories over several types.
func uiTypesHarness(depth int) *explore.Harness {
	types := []string{"tb", "ta", "Z", "t"}
	return &explore.Harness{Name: "types", ExecsPerGC: 50, Cfg: ctl.Config{Background: bgLevelDB, MaxSteps: 50000000},
		Doc: fmt.Sprintf("every sequence of up to %d saves of 1 or 2 events of 4 types, and failing saves: the list of types has exactly the types with events in order, with their counts and the total, the page of each its records; also the live pages' first totals", depth),
		Body: func(x *ctl.X) {
			e := openStore(x, "mem", false)
			u := newUI(x, e.St)
			defer func() { u.stop(); x.Quiesce() }()
			counts := map[string]int{}
			total := 0
			for i := 0; i < depth; i++ {
				op := x.ChooseF(2*len(types)+2, 0, func(i int) string {
					if i == 2*len(types) {
						return "end"
					} else if i > 2*len(types) {
						return "failing save"
					}
					return fmt.Sprintf("save %d %s", 1+i%2, types[i/2])
				})
				if op == 2*len(types) {
					break
				}
				if op > 2*len(types) {
					if _, err := e.St.OptimisticSave(bgCtx, 99, "x", &rangedb.EventRecord{Event: &Ev{Typ: "never", ID: "1"}}); err == nil {
						x.FailSig("save", "accepted")
					}
					continue
				}
				t := types[op/2]
				var ers []*rangedb.EventRecord
				for k := 0; k <= op%2; k++ {
					ers = append(ers, &rangedb.EventRecord{Event: &Ev{Typ: t, ID: "1", P: "p"}})
				}
				if _, err := e.St.Save(bgCtx, t+"!1", ers...); err != nil {
					x.FailSig("save", "%v", err)
				}
				counts[t] += len(ers)
				total += len(ers)
			}
			x.Quiesce()
			p := u.get("/aggregate-types")
			var want [][]string
			for _, t := range []string{"Z", "t", "ta", "tb"} {
				if counts[t] > 0 {
					want = append(want, []string{t, fmt.Sprint(counts[t])})
				}
			}
			if p.code != 200 || js(p.rows) != js(want) && len(p.rows)+len(want) > 0 || !inList(p.crumbs, fmt.Sprintf("Aggregate (%d)", total)) {
				x.FailSig("types", "the list of types is %q %q, not %q of %d", p.rows, p.crumbs, want, total)
			}
			for _, l := range append(types, "live") {
				link, n := "/a/"+l+"/live", counts[l]
				if l == "live" {
					link, n = "/aggregate-types/live", total
				}
				p := u.get(link)
				if p.code != 200 || len(p.scripts) != 1 || !strings.Contains(strings.Join(strings.Fields(p.scripts[0]), " "), fmt.Sprintf("totalEvents: %d ", n)) {
					x.FailSig("live", "the page %s does not start from %d events", link, n)
				}
			}
			for _, t := range types {
				if d := rowsDiff(u.get("/a/"+t+"?itemsPerPage=100").rows, allRecords(e.St.EventsByAggregateTypes(bgCtx, 0, t))); d != "" {
					x.FailSig("records", "type %s: %s", t, d)
				}
			}
			x.Observe("%v", counts)
		}}
}

// uiFaultHarness: reads that fail.
func uiFaultHarness() *explore.Harness {
	errs := []error{nil, errRead, context.Canceled, io.EOF, errors.New("<script>")}
	return &explore.Harness{Name: "faults", Cfg: ctl.Config{Background: bgLevelDB, MaxSteps: 50000000},
		Doc: "the read of a page fails with each of 4 errors after 0..3 records, with page sizes 1..4: a page is shown only if the records on it, and whether there are more, could be read; a missing stream is shown as empty",
		Body: func(x *ctl.X) {
			ei := x.ChooseF(len(errs)+1, 0, func(i int) string {
				if i == len(errs) {
					return "missing stream"
				}
				return fmt.Sprint("error ", errs[i])
			})
			n := x.ChooseF(4, 0, func(i int) string { return fmt.Sprint("after ", i, " records") })
			size := 1 + x.ChooseF(4, 0, func(i int) string { return fmt.Sprint(i+1, " per page") })
			f := &faultyStore{Store: openStore(x, "mem", false).St}
			f.recs = append(f.recs, streamRecs()[:min(n, 3)]...)
			n = len(f.recs)
			if ei == len(errs) {
				f.recs, n, f.err = nil, 0, rangedb.ErrStreamNotFound
			} else {
				f.err = errs[ei]
			}
			u := &uiSys{x: x, stats: projection.NewAggregateTypeStats()}
			u.h = rangedbui.New(u.stats, &countingStore{f}, rangedbui.WithHost("host"))
			for _, l := range []string{"/a/ta", "/s/ta!1"} {
				p := u.get(fmt.Sprintf("%s?itemsPerPage=%d", l, size))
				whole := f.err == nil || f.err == rangedb.ErrStreamNotFound || n > size
				switch {
				case whole && (p.code != 200 || rowsDiff(p.rows, f.recs[:min(n, size)]) != ""):
					x.FailSig("records", "%s with %d of %d records is answered with %d: %s", l, size, n, p.code, rowsDiff(p.rows, f.recs[:min(n, size)]))
				case !whole && p.code < 400 && p.code != 0:
					x.FailSig("complete", "%s, whose read fails with %v after %d records, is shown with %d records as if complete", l, f.err, n, len(p.rows))
				}
			}
			x.Observe("%d %d %d", ei, n, size)
		}}
}

// countingStore counts without failing.
type countingStore struct{ *faultyStore }

func (c *countingStore) TotalEventsInStream(context.Context, string) (uint64, error) {
	return uint64(len(c.recs)), nil
}

func init() {
	_ = json.Marshal
	explore.Register(&explore.Property{ID: "C31", Level: "model_checking", Rule: seqRule, Assumptions: append([]string{"requests are given to the web UI's handler directly; pages are read by an HTML5 parser; Vue is assumed to interpret ${...} in text below the element it is mounted on, except under v-pre"}, seqAssume...),
		Harnesses: []*explore.Harness{uiNamesHarness(), uiValuesHarness(), uiTypesHarness(explore.Tier(3, 4)), uiFaultHarness(), uiFeedHarness(explore.Tier(3, 4), explore.Tier(2, 3), embedded), uiFeedRaceHarness(2, 3), uiListRaceHarness(2, 4)}})
}
