package h

import (
	"context"
	"encoding/json"
	"fmt"
	"math"
	"net/http"
	"net/http/httptest"
	"net/url"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/paging"
	"github.com/inklabs/rangedb/pkg/projection"
	"github.com/inklabs/rangedb/pkg/rangedbui"
	"golang.org/x/net/html"

	"verifmc/ctl"
	"verifmc/explore"
)

// uiPage is what a browser makes of a page.
type uiPage struct {
	code       int
	doc        *html.Node
	rows       [][]string // texts of the table cells
	links      [][]string // their links
	prev, next string
	title      string
	crumbs     []string
	outline    string   // elements and attribute names, without texts
	scripts    []string // inline
	vue        []string // expressions that a script on the page interprets
}

func attr(n *html.Node, k string) string {
	for _, a := range n.Attr {
		if a.Key == k {
			return a.Val
		}
	}
	return ""
}

func hasAttr(n *html.Node, k string) bool {
	for _, a := range n.Attr {
		if a.Key == k {
			return true
		}
	}
	return false
}

func textOf(n *html.Node) string {
	if n.Type == html.TextNode {
		return n.Data
	}
	s := ""
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		s += textOf(c)
	}
	return s
}

func hrefOf(n *html.Node) string {
	if n.Type == html.ElementNode && n.Data == "a" {
		return attr(n, "href")
	}
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		if h := hrefOf(c); h != "" {
			return h
		}
	}
	return ""
}

var vueRx = regexp.MustCompile(`(?s)\$\{.*?\}`)

func (p *uiPage) walk(n *html.Node, inApp, pre bool, b *strings.Builder) {
	if n.Type == html.TextNode && inApp && !pre {
		p.vue = append(p.vue, vueRx.FindAllString(n.Data, -1)...)
	}
	if n.Type == html.CommentNode {
		b.WriteString("<!>")
	}
	if n.Type == html.ElementNode {
		b.WriteString("<" + n.Data)
		for _, a := range n.Attr {
			b.WriteString(" " + a.Key)
		}
		b.WriteString(">")
		inApp = inApp || attr(n, "id") == "app"
		pre = pre || hasAttr(n, "v-pre")
		switch {
		case n.Data == "title":
			p.title = strings.TrimSuffix(textOf(n), " - RangeDB")
		case n.Data == "script" && !hasAttr(n, "src"):
			p.scripts = append(p.scripts, textOf(n))
		case n.Data == "tr":
			var row, links []string
			for c := n.FirstChild; c != nil; c = c.NextSibling {
				if c.Type == html.ElementNode && c.Data == "td" {
					row = append(row, textOf(c))
					links = append(links, hrefOf(c))
				}
			}
			if row != nil {
				p.rows, p.links = append(p.rows, row), append(p.links, links)
			}
		case n.Data == "li" && n.Parent != nil && attr(n.Parent, "class") == "breadcrumbs":
			p.crumbs = append(p.crumbs, strings.Trim(textOf(n), " \n\t"))
		case n.Data == "li" && strings.HasPrefix(attr(n, "class"), "pagination-previous"):
			p.prev = hrefOf(n)
		case n.Data == "li" && strings.HasPrefix(attr(n, "class"), "pagination-next"):
			p.next = hrefOf(n)
		}
	}
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		p.walk(c, inApp, pre, b)
	}
	if n.Type == html.ElementNode {
		b.WriteString("</>")
	}
}

type uiSys struct {
	x     *ctl.X
	h     http.Handler
	stats *projection.AggregateTypeStats
	stop  context.CancelFunc
}

// newUI puts the web UI over a store. Its statistics follow the store.
func newUI(x *ctl.X, st rangedb.Store) *uiSys {
	u := &uiSys{x: x, stats: projection.NewAggregateTypeStats()}
	ctx, cancel := context.WithCancel(context.Background())
	u.stop = cancel
	if err := st.AllEventsSubscription(ctx, 10, u.stats).StartFrom(0); err != nil {
		x.FailSig("ui", "statistics: %v", err)
	}
	u.h = rangedbui.New(u.stats, st, rangedbui.WithHost("host"))
	return u
}

// get requests a page as a browser does that follows a link.
func (u *uiSys) get(link string, accept ...string) *uiPage {
	base, _ := url.Parse("http://host/")
	l, err := url.Parse(link)
	if err != nil {
		u.x.FailSig("link", "link %q cannot be followed: %v", link, err)
		return &uiPage{}
	}
	r := httptest.NewRequest("GET", "http://host/", nil)
	r.URL = base.ResolveReference(l)
	r.URL.Fragment = ""
	r.RequestURI = r.URL.RequestURI()
	if pr, err := url.ParseRequestURI(r.RequestURI); err == nil {
		pr.Scheme, pr.Host = "", ""
		r.URL = pr
	}
	for i := 0; i+1 < len(accept); i += 2 {
		r.Header.Set(accept[i], accept[i+1])
	}
	a := serveHTTP(u.h, r, -1)
	p := &uiPage{code: a.code}
	if a.aborted {
		p.code = 0
		return p
	}
	p.doc, _ = html.Parse(strings.NewReader(string(a.body)))
	var b strings.Builder
	p.walk(p.doc, false, false, &b)
	p.outline = b.String()
	return p
}

func comma(n int) string { // 1,234
	s := strconv.Itoa(n)
	for i := len(s) - 3; i > 0; i -= 3 {
		s = s[:i] + "," + s[i:]
	}
	return s
}

// wantRow is what the table shows of a record.
func wantRow(r *rangedb.Record) []string {
	data, _ := json.Marshal(r.Data)
	return []string{fmt.Sprint(r.GlobalSequenceNumber), fmt.Sprint(r.StreamSequenceNumber), r.EventType, r.AggregateType, r.StreamName,
		time.Unix(int64(r.InsertTimestamp), 0).UTC().Format("Jan 02, 2006 15:04:05") + " UTC", string(data)}
}

// (a browser makes one line feed of a carriage return with or without a line feed, and drops NUL in text)
func browserText(s string) string {
	s = strings.ReplaceAll(strings.ReplaceAll(s, "\r\n", "\n"), "\r", "\n")
	return strings.ReplaceAll(s, "\x00", "\ufffd")
}

func rowsDiff(got [][]string, want []*rangedb.Record) string {
	var g, w []string
	for _, r := range got {
		g = append(g, js(r))
	}
	for _, r := range want {
		row := wantRow(r)
		for i := range row {
			row[i] = browserText(row[i])
		}
		w = append(w, js(row))
	}
	if strings.Join(g, "\n") != strings.Join(w, "\n") {
		return fmt.Sprintf("shows %s, the store has %s", g, w)
	}
	return ""
}

func allRecords(it rangedb.RecordIterator) (l []*rangedb.Record) {
	for it.Next() {
		l = append(l, it.Record())
	}
	return l
}

// crawl visits every page that the links of a listing lead to, and checks each.
func (u *uiSys) crawl(start string, at, size int, recs []*rangedb.Record, name string, total int) {
	x := u.x
	type state struct {
		url  string
		page int // pages after the first
		prev string
	}
	back := map[string]string{} // page to be seen again -> rows
	seen := map[string]bool{}
	todo := []state{{start, 0, ""}}
	visits := 0
	for len(todo) > 0 && !x.Failed() {
		s := todo[0]
		todo = todo[1:]
		key := fmt.Sprintf("%d %s", s.page, s.url)
		if seen[key] {
			continue
		}
		seen[key] = true
		if visits++; visits > 200 {
			x.FailSig("endless", "following the links from %q never ends", start)
			return
		}
		if s.page < 0 {
			x.FailSig("links", "%q has a previous page before the first", s.url)
			return
		}
		p := u.get(s.url)
		lo := at + s.page*size
		hi := lo + size
		if lo > len(recs) {
			lo = len(recs)
		}
		if hi > len(recs) {
			hi = len(recs)
		}
		if p.code != 200 {
			x.FailSig("status", "page %q is answered with %d", s.url, p.code)
			return
		}
		if d := rowsDiff(p.rows, recs[lo:hi]); d != "" {
			x.FailSig("records", "page %q, number %d from %q with %d records per page, %s", s.url, s.page, start, size, d)
			return
		}
		if want := fmt.Sprintf("%s (%s)", name, comma(total)); len(p.crumbs) == 0 || !inList(p.crumbs, want) {
			x.FailSig("count", "page %q shows %q, not %q", s.url, p.crumbs, want)
			return
		}
		if (p.next != "") != (hi < len(recs)) {
			x.FailSig("links", "page %q shows records up to %d of %d, its next link is %q", s.url, hi, len(recs), p.next)
			return
		}
		if (p.prev != "") != (s.page > 0) {
			x.FailSig("links", "page %q is number %d, its previous link is %q", s.url, s.page, p.prev)
			return
		}
		back[key] = js(p.rows)
		if p.next != "" {
			todo = append(todo, state{p.next, s.page + 1, s.url})
		}
		if p.prev != "" {
			todo = append(todo, state{p.prev, s.page - 1, ""})
		}
	}
	x.Count(visits)
}

func inList(l []string, s string) bool {
	for _, e := range l {
		if e == s {
			return true
		}
	}
	return false
}

func uiPagesHarness(n int, name string, kinds []string) *explore.Harness {
	sizes := []string{"", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13", "1000", "1001", "18446744073709551615", "18446744073709551616", "-1", "x", "1.5", " 2"}
	return &explore.Harness{Name: name, ExecsPerGC: 20, Cfg: ctl.Config{Background: bgLevelDB, MaxSteps: 50000000},
		Doc: fmt.Sprintf("a stream and an aggregate type with 0..%d events between events of others and of a deleted stream: from the first page, and from every position, with each of %d page sizes (valid, out of bounds, malformed), every page that links lead to is visited: each shows the records of its position, as the store has them, and the count; a next link exactly if there are more, a previous link exactly after the first", n, len(sizes)),
		Body: func(x *ctl.X) {
			kind := kinds[x.ChooseF(len(kinds), 0, func(i int) string { return kinds[i] + " store" })]
			cnt := x.ChooseF(n+1, 0, func(i int) string { return fmt.Sprintf("%d events", i) })
			si := x.ChooseF(len(sizes), 0, func(i int) string { return fmt.Sprintf("page size %q", sizes[i]) })
			e := openStore(x, kind, false)
			defer e.Close()
			u := newUI(x, e.St)
			defer func() { u.stop(); x.Quiesce() }()
			save := func(typ, id, p string) {
				if _, err := e.St.Save(bgCtx, rangedb.GetStream(typ, id), &rangedb.EventRecord{Event: &Ev{Typ: typ, ID: id, P: p}}); err != nil {
					x.FailSig("save", "%v", err)
				}
			}
			save("ta", "2", "first")
			for i := 0; i < cnt; i++ {
				save("ta", "1", fmt.Sprintf("e%d", i))
				switch i % 3 {
				case 0:
					save("tb", "1", "between")
				case 1:
					save("ta", "gone", "deleted")
				case 2:
					save("ta", "2", "same type")
				}
			}
			if v, _ := e.St.TotalEventsInStream(bgCtx, "ta!gone"); v > 0 {
				if err := e.St.OptimisticDeleteStream(bgCtx, v, "ta!gone"); err != nil {
					x.FailSig("delete", "%v", err)
				}
			}
			x.Quiesce()
			size := 10
			if v, err := strconv.ParseUint(sizes[si], 10, 64); err == nil && v > 0 {
				size = int(min(v, 1000))
			} else if si == 18 {
				size = 10 // (any size within the bounds shows all)
			}
			byStream := allRecords(e.St.EventsByStream(bgCtx, 0, "ta!1"))
			byType := allRecords(e.St.EventsByAggregateTypes(bgCtx, 0, "ta"))
			q := ""
			if si > 0 {
				q = "itemsPerPage=" + url.QueryEscape(sizes[si])
			}
			total := int(u.stats.TotalEventsByAggregateType("ta"))
			u.crawl("/s/ta!1?"+q, 0, size, byStream, "ta!1", len(byStream))
			u.crawl("/a/ta?"+q, 0, size, byType, "ta", total)
			u.crawl("/s/never?"+q, 0, size, nil, "never", 0)
			u.crawl("/a/never?"+q, 0, size, nil, "never", 0)
			if size <= 3 {
				for i, r := range byStream {
					u.crawl(fmt.Sprintf("/s/ta!1?%s&current=%d", q, r.StreamSequenceNumber), i, size, byStream, "ta!1", len(byStream))
				}
				for i, r := range byType {
					u.crawl(fmt.Sprintf("/a/ta?%s&current=%d", q, r.GlobalSequenceNumber), i, size, byType, "ta", total)
				}
			}
			for _, cur := range []string{"", "x", "-1", "0", "18446744073709551616", "1e3"} {
				u.crawl(fmt.Sprintf("/s/ta!1?%s&current=%s&previous=%s", q, cur, cur+"x"), 0, size, byStream, "ta!1", len(byStream))
			}
			u.crawl("/a/ta?"+q+"&current=18446744073709551615", len(byType), size, byType, "ta", total)
			u.crawl("/s/ta!1?"+q+"&current=18446744073709551615", len(byStream), size, byStream, "ta!1", len(byStream))
			x.Observe("%d %d", cnt, si)
		}}
}

// pagingLinksHarness: the link builder alone, over every set of positions.
func pagingLinksHarness(n int) *explore.Harness {
	bases := []string{"/a/thing", "/s/a%20b", "http://host/x", "/s/thing!1", "", "/s/a%2Fb%3Fc"}
	return &explore.Harness{Name: "links", Cfg: ctl.Config{MaxSteps: 50000000},
		Doc: fmt.Sprintf("every set of positions in 0..%d, every page size up to %d, %d base URIs, starting at every position: all links that can be followed are, through their URL form; the page stack behaves as a list of pages", n-1, n+1, len(bases)),
		Body: func(x *ctl.X) {
			base := bases[x.ChooseF(len(bases), 0, func(i int) string { return bases[i] })]
			size := uint64(x.ChooseF(n+1, 0, func(i int) string { return fmt.Sprintf("%d per page", i+1) }) + 1)
			for set := 0; set < 1<<n; set++ {
				var at []uint64
				for i := 0; i < n; i++ {
					if set&(1<<i) != 0 {
						at = append(at, uint64(i))
					}
				}
				for start := uint64(0); start < uint64(n); start++ {
					first := sort.Search(len(at), func(i int) bool { return at[i] >= start })
					pages := [][]uint64{}
					for i := first; i < len(at) || i == first; i += int(size) {
						pages = append(pages, at[i:min(len(at), i+int(size))])
					}
					p := paging.NewPagination(size, start, nil)
					type st struct {
						p    paging.Pagination
						page int
					}
					todo := []st{{p, 0}}
					seen := map[string]bool{}
					for len(todo) > 0 {
						s := todo[0]
						todo = todo[1:]
						key := fmt.Sprint(s)
						if seen[key] {
							continue
						}
						seen[key] = true
						if s.page < 0 || s.page >= len(pages) || len(seen) > 4*n+4 {
							x.FailSig("links", "positions %v from %d, %d per page: links lead to page %d", at, start, size, s.page)
							return
						}
						i := sort.Search(len(at), func(i int) bool { return at[i] >= s.p.CurrentIndex })
						got := at[i:min(len(at), i+int(s.p.ItemsPerPage))]
						if fmt.Sprint(got) != fmt.Sprint(pages[s.page]) || s.p.ItemsPerPage != size {
							x.FailSig("page", "positions %v from %d, %d per page: page %d has %v, not %v", at, start, size, s.page, got, pages[s.page])
							return
						}
						next := s.p.CurrentIndex
						if i+int(size) < len(at) {
							next = at[i+int(size)]
						}
						spare := append(make([]uint64, 0, 16), s.p.PreviousIndices...)
						whole := append(spare, 77)
						sp := s.p
						if len(spare) > 0 {
							sp.PreviousIndices = spare
						}
						l := sp.Links(base, next)
						if whole[len(spare)] != 77 {
							x.FailSig("alias", "Links changes the caller's list of previous pages beyond its end")
							return
						}
						if (l.Next != "") != (s.page+1 < len(pages)) || (l.Previous != "") != (s.page > 0) {
							x.FailSig("links", "positions %v from %d, %d per page: page %d of %d has links %+v", at, start, size, s.page, len(pages), l)
							return
						}
						for k, link := range []string{l.Previous, l.Next} {
							if link == "" {
								continue
							}
							u, err := url.Parse(link)
							bu, _ := url.Parse(base)
							if err != nil || u.EscapedPath() != bu.EscapedPath() || u.Host != bu.Host {
								x.FailSig("uri", "link %q does not lead to %q: %v", link, base, err)
								return
							}
							np := paging.NewPaginationFromQuery(u.Query())
							todo = append(todo, st{np, s.page + 2*k - 1})
						}
					}
				}
			}
			x.Count(n << n)
			x.Observe("%s %d", base, size)
		}}
}

// pagingValuesHarness: every parameter value.
func pagingValuesHarness() *explore.Harness {
	nums := []string{"", "0", "1", "9", "10", "11", "999", "1000", "1001", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "-1", "+1", "01", "1.0", "1e3", "x", " 1", "1 ", "0x10", "1_0", "１"}
	return &explore.Harness{Name: "values", Cfg: ctl.Config{},
		Doc: fmt.Sprintf("every triple of %d page size, position and previous-list values (lists of every pair of them): the page size is what was asked for within 1..1000, or 10; the position what was asked for, or 0; the previous list the leading valid ones", len(nums)),
		Body: func(x *ctl.X) {
			a := nums[x.ChooseF(len(nums), 0, func(i int) string { return fmt.Sprintf("size %q", nums[i]) })]
			num := func(s string, bad uint64) uint64 {
				v, err := strconv.ParseUint(s, 10, 64)
				if err != nil {
					return bad
				}
				return v
			}
			for _, cur := range nums {
				for _, p1 := range nums {
					for _, p2 := range append(nums, "none") {
						prev := p1
						if p2 != "none" {
							prev += "," + p2
						}
						var want []uint64
						for _, s := range strings.Split(prev, ",") {
							v, err := strconv.ParseUint(s, 10, 64)
							if err != nil {
								break
							}
							want = append(want, v)
						}
						for _, p := range []paging.Pagination{paging.NewPaginationFromString(a, cur, prev),
							paging.NewPaginationFromQuery(url.Values{"itemsPerPage": {a}, "current": {cur}, "previous": {prev}})} {
							okSize := p.ItemsPerPage >= 1 && p.ItemsPerPage <= 1000
							if v, err := strconv.ParseUint(a, 10, 64); err == nil && v > 0 {
								okSize = p.ItemsPerPage == min(v, 1000)
							} else if a != "18446744073709551616" {
								okSize = p.ItemsPerPage == 10
							}
							if !okSize || p.CurrentIndex != num(cur, 0) || fmt.Sprint(p.PreviousIndices) != fmt.Sprint(want) {
								x.FailSig("value", "itemsPerPage %q, current %q, previous %q gives %+v", a, cur, prev, p)
								return
							}
						}
					}
				}
			}
			for _, v := range []uint64{0, 1, 10, 1000, 1001, math.MaxUint64} {
				if p := paging.NewPagination(v, v, []uint64{v}); p.ItemsPerPage < 1 || p.ItemsPerPage > 1000 || v > 0 && p.ItemsPerPage != min(v, 1000) || p.CurrentIndex != v || len(p.PreviousIndices) != 1 {
					x.FailSig("value", "NewPagination(%d, %d) gives %+v", v, v, p)
				}
			}
			x.Count(2 * len(nums) * len(nums) * (len(nums) + 1))
			x.Observe("%q", a)
		}}
}

// readNHarness: ReadNRecords over every reader.
func readNHarness(cfg ctl.Config, quick, thorough int) *explore.Harness {
	kinds := []string{"mem", "ldb", "remote-mem", "scripted"}
	ns := []uint64{0, 1, 2, 3, 4, 5, math.MaxUint64 - 1, math.MaxUint64}
	errs := []error{nil, errRead, context.Canceled}
	return &explore.Harness{Name: "read-n", ExecsPerGC: 200, Cfg: cfg, Quick: quick, Thorough: thorough,
		Doc: "the first N of 0..4 records (N 0..5 and huge) from the in-memory, LevelDB and remote stores and from readers that fail after every number of records: the first min(N, available), and afterwards no goroutine of the read is left and the release function was called",
		Body: func(x *ctl.X) {
			kind := kinds[x.ChooseF(len(kinds), 0, func(i int) string { return kinds[i] })]
			n := ns[x.ChooseF(len(ns), 0, func(i int) string { return fmt.Sprintf("first %d", ns[i]) })]
			have := x.ChooseF(5, 0, func(i int) string { return fmt.Sprintf("of %d", i) })
			how := x.ChooseF(3, 0, func(i int) string { return append(getKinds[:2:2], "EventsByStream")[i] })
			k := kind
			var it func(ctx context.Context) rangedb.RecordIterator
			avail := have
			if kind == "scripted" {
				k = "mem"
				recs := []*rangedb.Record{}
				for i := 0; i < have; i++ {
					recs = append(recs, &rangedb.Record{GlobalSequenceNumber: uint64(i + 1)})
				}
				it = func(context.Context) rangedb.RecordIterator { return chanIter(recs, errs[how]) }
			}
			e := openStore(x, k, false)
			defer e.Close()
			if it == nil {
				for i := 0; i < have; i++ {
					if _, err := e.St.Save(bgCtx, "ta!1", &rangedb.EventRecord{Event: &Ev{Typ: "ta", ID: "1", P: "p"}}); err != nil {
						x.FailSig("save", "%v", err)
						return
					}
				}
				it = func(ctx context.Context) rangedb.RecordIterator {
					switch how {
					case 0:
						return e.St.Events(ctx, 0)
					case 1:
						return e.St.EventsByAggregateTypes(ctx, 0, "ta", "tb")
					}
					return e.St.EventsByStream(ctx, 0, "ta!1")
				}
			}
			x.Quiesce()
			base := x.Goroutines()
			released := 0
			x.Explore(true)
			got := rangedb.ReadNRecords(n, func() (rangedb.RecordIterator, context.CancelFunc) {
				ctx, cancel := context.WithCancel(context.Background())
				return it(ctx), func() { released++; cancel() }
			})
			x.Explore(false)
			time.Sleep(5 * time.Second) // (a reader gives up handing over its last error after a second)
			want := avail
			if uint64(want) > n {
				want = int(n)
			}
			ok := len(got) == want
			for i := 0; ok && i < want; i++ {
				ok = got[i] != nil && got[i].GlobalSequenceNumber == uint64(i+1)
			}
			if !ok {
				x.FailSig("records", "ReadNRecords(%d) of %d records returns %d: %s", n, avail, len(got), recsOf(got))
			}
			if stuck := x.Quiesce(); released == 0 || len(newGoroutines(x, base)) > 0 {
				x.FailSig("release", "after ReadNRecords(%d) of %d records: released %d times, left: %v (%v)", n, avail, released, newGoroutines(x, base), stuck)
			}
			x.Observe("%s %d %d %d", kind, n, have, how)
		}}
}

// newGoroutines describes those that were not there before.
func newGoroutines(x *ctl.X, before []ctl.Goroutine) (l []string) {
	old := map[uint32]bool{}
	for _, g := range before {
		old[g.ID] = true
	}
	for _, g := range x.Goroutines() {
		if !old[g.ID] {
			l = append(l, fmt.Sprintf("%s, %s at %s", g.Created, g.Reason, strings.Join(g.Stack, " < ")))
		}
	}
	return l
}

func init() {
	rn := remoteCfg()
	rn.Stmt, rn.BlockCost, rn.SelectCost = true, 1, 1
	explore.Register(&explore.Property{ID: "C26", Level: "model_checking", Rule: seqRule, Assumptions: append([]string{"requests are given to the web UI's handler directly; pages are read by an HTML parser"}, seqAssume...),
		Harnesses: []*explore.Harness{pagingLinksHarness(explore.Tier(8, 11)), pagingValuesHarness(), uiPagesHarness(explore.Tier(12, 20), "pages", embedded), readNHarness(rn, explore.Tier(0, 1), 1)}})
}
