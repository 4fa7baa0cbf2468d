package h

import (
	"encoding/json"
	"fmt"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// A small PostgreSQL: the statements an event store could reasonably send,
// with multi-version rows, READ COMMITTED and REPEATABLE READ snapshots, row
// and advisory locks, unique constraints, non-transactional sequences, and
// notifications at commit.

type pgErr struct{ code, msg, constraint, table string }

func (e *pgErr) Error() string { return e.code + " " + e.msg }

func pgErrf(code, format string, args ...interface{}) *pgErr {
	return &pgErr{code: code, msg: fmt.Sprintf(format, args...)}
}

// ---- lexer ----

type pgTok struct {
	k byte // i ident, n number, s string, p parameter, o operator, 0 end
	s string
}

func pgLex(q string) ([]pgTok, *pgErr) {
	var t []pgTok
	for i := 0; i < len(q); {
		c := q[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case strings.HasPrefix(q[i:], "--"):
			for i < len(q) && q[i] != '\n' {
				i++
			}
		case strings.HasPrefix(q[i:], "/*"):
			j := strings.Index(q[i:], "*/")
			if j < 0 {
				return nil, pgErrf("42601", "unterminated comment")
			}
			i += j + 2
		case strings.HasPrefix(q[i:], "$$"):
			j := strings.Index(q[i+2:], "$$")
			if j < 0 {
				return nil, pgErrf("42601", "unterminated dollar-quoted string")
			}
			t = append(t, pgTok{'s', q[i+2 : i+2+j]})
			i += j + 4
		case c == '\'':
			var b strings.Builder
			for i++; ; i++ {
				if i >= len(q) {
					return nil, pgErrf("42601", "unterminated quoted string")
				}
				if q[i] == '\'' {
					if i+1 < len(q) && q[i+1] == '\'' {
						i++
					} else {
						break
					}
				}
				b.WriteByte(q[i])
			}
			i++
			t = append(t, pgTok{'s', b.String()})
		case c == '"':
			j := strings.IndexByte(q[i+1:], '"')
			if j < 0 {
				return nil, pgErrf("42601", "unterminated quoted identifier")
			}
			t = append(t, pgTok{'i', q[i+1 : i+1+j]})
			i += j + 2
		case c == '$':
			j := i + 1
			for j < len(q) && q[j] >= '0' && q[j] <= '9' {
				j++
			}
			t = append(t, pgTok{'p', q[i+1 : j]})
			i = j
		case c >= '0' && c <= '9':
			j := i
			for j < len(q) && (q[j] >= '0' && q[j] <= '9' || q[j] == '.') {
				j++
			}
			t = append(t, pgTok{'n', q[i:j]})
			i = j
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80:
			j := i
			for j < len(q) && (q[j] == '_' || q[j] >= 'a' && q[j] <= 'z' || q[j] >= 'A' && q[j] <= 'Z' || q[j] >= '0' && q[j] <= '9' || q[j] >= 0x80) {
				j++
			}
			t = append(t, pgTok{'i', strings.ToLower(q[i:j])})
			i = j
		default:
			for _, op := range []string{"::", "<>", "!=", "<=", ">=", "||"} {
				if strings.HasPrefix(q[i:], op) {
					t = append(t, pgTok{'o', op})
					i += 2
					goto next
				}
			}
			t = append(t, pgTok{'o', string(c)})
			i++
		next:
		}
	}
	return t, nil
}

// ---- expressions ----

type pgEnv struct {
	s      *pgSess
	snap   int64
	params []interface{}
	row    map[string]interface{} // column -> value, also "alias.column"
	group  []map[string]interface{}
	grp    bool
}

type pgExpr struct {
	op    string // lit, param, col, func, sub, exists, and binary/unary operators
	val   interface{}
	name  string
	args  []*pgExpr
	sel   *pgStmt
	typ   string // casts
	order []pgOrder
}

type pgOrder struct {
	e    *pgExpr
	desc bool
}

type pgItem struct {
	e    *pgExpr
	name string
	star bool
}

type pgStmt struct {
	kind      string // select insert update delete begin commit rollback ddl listen notify set truncate empty
	items     []pgItem
	table     string
	alias     string
	where     *pgExpr
	group     []*pgExpr
	having    *pgExpr
	order     []pgOrder
	limit     *pgExpr
	offset    *pgExpr
	forUpdate bool
	cols      []string
	rows      [][]*pgExpr
	from      *pgStmt // INSERT ... SELECT
	sets      map[string]*pgExpr
	returning []pgItem
	conflict  string // "", nothing, update
	conflCols []string
	isolation string
	ddl       string
	cd        *pgTable
	ifNot     bool
	distinct  bool
	nparams   int
}

type pgParser struct {
	t []pgTok
	i int
	n int
}

type pgSyntax struct{ e *pgErr }

func (p *pgParser) fail(what string) {
	near := "end"
	if p.i < len(p.t) {
		near = p.t[p.i].s
	}
	panic(pgSyntax{pgErrf("42601", "syntax error at or near %q (%s)", near, what)})
}

func (p *pgParser) peek() pgTok {
	if p.i < len(p.t) {
		return p.t[p.i]
	}
	return pgTok{}
}

func (p *pgParser) is(words ...string) bool {
	for k, w := range words {
		if p.i+k >= len(p.t) {
			return false
		}
		t := p.t[p.i+k]
		if t.k == 's' || t.k == 'p' || t.s != w {
			return false
		}
	}
	return true
}

func (p *pgParser) accept(words ...string) bool {
	if p.is(words...) {
		p.i += len(words)
		return true
	}
	return false
}

func (p *pgParser) expect(words ...string) {
	for _, w := range words {
		if !p.accept(w) {
			p.fail("expected " + w)
		}
	}
}

func (p *pgParser) ident() string {
	t := p.peek()
	if t.k != 'i' {
		p.fail("expected a name")
	}
	p.i++
	return t.s
}

func (p *pgParser) tableName() string {
	n := p.ident()
	if p.accept(".") {
		n = p.ident()
	}
	return n
}

func (p *pgParser) expr() *pgExpr { return p.or() }

func (p *pgParser) or() *pgExpr {
	e := p.and()
	for p.accept("or") {
		e = &pgExpr{op: "or", args: []*pgExpr{e, p.and()}}
	}
	return e
}

func (p *pgParser) and() *pgExpr {
	e := p.not()
	for p.accept("and") {
		e = &pgExpr{op: "and", args: []*pgExpr{e, p.not()}}
	}
	return e
}

func (p *pgParser) not() *pgExpr {
	if p.accept("not") {
		return &pgExpr{op: "not", args: []*pgExpr{p.not()}}
	}
	return p.cmp()
}

func (p *pgParser) cmp() *pgExpr {
	e := p.add()
	for {
		t := p.peek()
		switch {
		case t.k == 'o' && (t.s == "=" || t.s == "<>" || t.s == "!=" || t.s == "<" || t.s == "<=" || t.s == ">" || t.s == ">="):
			p.i++
			op := t.s
			if op == "!=" {
				op = "<>"
			}
			if p.is("any", "(") || p.is("some", "(") || p.is("all", "(") {
				all := p.is("all")
				p.i += 2
				a := p.exprOrSelect()
				p.expect(")")
				name := "any"
				if all {
					name = "all"
				}
				e = &pgExpr{op: name, name: op, args: []*pgExpr{e, a}}
				continue
			}
			e = &pgExpr{op: op, args: []*pgExpr{e, p.add()}}
		case p.accept("is", "not", "null"):
			e = &pgExpr{op: "isnotnull", args: []*pgExpr{e}}
		case p.accept("is", "null"):
			e = &pgExpr{op: "isnull", args: []*pgExpr{e}}
		case p.is("in", "(") || p.is("not", "in", "("):
			not := p.accept("not")
			p.i += 2
			x := &pgExpr{op: "in", args: []*pgExpr{e}}
			if p.is("select") {
				x.sel = p.selectStmt()
			} else {
				for {
					x.args = append(x.args, p.expr())
					if !p.accept(",") {
						break
					}
				}
			}
			p.expect(")")
			e = x
			if not {
				e = &pgExpr{op: "not", args: []*pgExpr{e}}
			}
		case p.accept("between"):
			lo := p.add()
			p.expect("and")
			hi := p.add()
			e = &pgExpr{op: "and", args: []*pgExpr{{op: ">=", args: []*pgExpr{e, lo}}, {op: "<=", args: []*pgExpr{e, hi}}}}
		default:
			return e
		}
	}
}

func (p *pgParser) exprOrSelect() *pgExpr {
	if p.is("select") {
		return &pgExpr{op: "sub", sel: p.selectStmt()}
	}
	return p.expr()
}

func (p *pgParser) add() *pgExpr {
	e := p.mul()
	for {
		t := p.peek()
		if t.k == 'o' && (t.s == "+" || t.s == "-" || t.s == "||") {
			p.i++
			e = &pgExpr{op: t.s, args: []*pgExpr{e, p.mul()}}
			continue
		}
		return e
	}
}

func (p *pgParser) mul() *pgExpr {
	e := p.unary()
	for {
		t := p.peek()
		if t.k == 'o' && (t.s == "*" || t.s == "/" || t.s == "%") {
			p.i++
			e = &pgExpr{op: t.s, args: []*pgExpr{e, p.unary()}}
			continue
		}
		return e
	}
}

func (p *pgParser) unary() *pgExpr {
	if p.accept("-") {
		return &pgExpr{op: "-", args: []*pgExpr{{op: "lit", val: int64(0)}, p.unary()}}
	}
	e := p.primary()
	for {
		switch {
		case p.accept("::"):
			e = &pgExpr{op: "cast", typ: p.typeName(), args: []*pgExpr{e}}
		default:
			return e
		}
	}
}

func (p *pgParser) typeName() string {
	t := p.ident()
	if t == "double" || t == "character" {
		t += " " + p.ident()
	}
	if p.accept("(") {
		for !p.accept(")") {
			p.i++
			if p.i > len(p.t) {
				p.fail("type")
			}
		}
	}
	if p.accept("[") {
		p.expect("]")
		t += "[]"
	}
	if (t == "timestamp" || t == "time") && (p.accept("with", "time", "zone") || p.accept("without", "time", "zone")) {
	}
	return t
}

func (p *pgParser) primary() *pgExpr {
	t := p.peek()
	switch t.k {
	case 'n':
		p.i++
		n, err := strconv.ParseInt(t.s, 10, 64)
		if err != nil {
			p.fail("number")
		}
		return &pgExpr{op: "lit", val: n}
	case 's':
		p.i++
		return &pgExpr{op: "lit", val: t.s}
	case 'p':
		p.i++
		n, _ := strconv.Atoi(t.s)
		if n > p.n {
			p.n = n
		}
		return &pgExpr{op: "param", val: n - 1}
	}
	switch {
	case p.accept("("):
		e := p.exprOrSelect()
		if p.is(",") {
			x := &pgExpr{op: "row", args: []*pgExpr{e}}
			for p.accept(",") {
				x.args = append(x.args, p.expr())
			}
			e = x
		}
		p.expect(")")
		return e
	case p.accept("null"):
		return &pgExpr{op: "lit"}
	case p.accept("true"):
		return &pgExpr{op: "lit", val: true}
	case p.accept("false"):
		return &pgExpr{op: "lit", val: false}
	case p.accept("default"):
		return &pgExpr{op: "default"}
	case p.accept("exists", "("):
		e := &pgExpr{op: "exists", sel: p.selectStmt()}
		p.expect(")")
		return e
	case p.accept("cast", "("):
		e := p.expr()
		p.expect("as")
		e = &pgExpr{op: "cast", typ: p.typeName(), args: []*pgExpr{e}}
		p.expect(")")
		return e
	case p.accept("array", "["):
		x := &pgExpr{op: "array"}
		for !p.accept("]") {
			x.args = append(x.args, p.expr())
			p.accept(",")
		}
		return x
	case p.accept("case"):
		x := &pgExpr{op: "case"}
		for p.accept("when") {
			x.args = append(x.args, p.expr())
			p.expect("then")
			x.args = append(x.args, p.expr())
		}
		if p.accept("else") {
			x.args = append(x.args, p.expr())
		}
		p.expect("end")
		return x
	}
	n := p.ident()
	if p.accept("(") {
		x := &pgExpr{op: "func", name: n}
		if p.accept("*") {
			x.name = n + "*"
		} else {
			p.accept("distinct")
			for !p.is(")") {
				x.args = append(x.args, p.expr())
				if !p.accept(",") {
					break
				}
			}
		}
		p.expect(")")
		return x
	}
	if p.accept(".") {
		if p.accept("*") {
			return &pgExpr{op: "star"}
		}
		return &pgExpr{op: "col", name: n + "." + p.ident()}
	}
	return &pgExpr{op: "col", name: n}
}

func (p *pgParser) selectItems() []pgItem {
	var r []pgItem
	for {
		if p.accept("*") {
			r = append(r, pgItem{star: true})
		} else {
			e := p.expr()
			it := pgItem{e: e}
			switch e.op {
			case "star":
				it = pgItem{star: true}
			case "col":
				it.name = e.name[strings.LastIndexByte(e.name, '.')+1:]
			case "func":
				it.name = strings.TrimSuffix(e.name, "*")
			default:
				it.name = "?column?"
			}
			if p.accept("as") {
				it.name = p.ident()
			} else if p.peek().k == 'i' && !p.is("from") && !p.is("where") && !p.is("union") && !p.is("order") && !p.is("limit") && !p.is("group") {
				it.name = p.ident()
			}
			r = append(r, it)
		}
		if !p.accept(",") {
			return r
		}
	}
}

func (p *pgParser) aliasOpt(st *pgStmt) {
	if p.accept("as") {
		st.alias = p.ident()
	} else if p.peek().k == 'i' {
		for _, w := range []string{"where", "group", "order", "limit", "offset", "for", "returning", "set", "having", "fetch", "using", "values", "on", "select", "default"} {
			if p.is(w) {
				return
			}
		}
		st.alias = p.ident()
	}
}

func (p *pgParser) selectStmt() *pgStmt {
	p.expect("select")
	st := &pgStmt{kind: "select"}
	st.distinct = p.accept("distinct")
	st.items = p.selectItems()
	if p.accept("from") {
		st.table = p.tableName()
		p.aliasOpt(st)
		if p.is(",") || p.is("join") {
			p.fail("joins are not supported")
		}
	}
	if p.accept("where") {
		st.where = p.expr()
	}
	if p.accept("group", "by") {
		for {
			st.group = append(st.group, p.expr())
			if !p.accept(",") {
				break
			}
		}
	}
	if p.accept("having") {
		st.having = p.expr()
	}
	if p.accept("order", "by") {
		for {
			o := pgOrder{e: p.expr()}
			if p.accept("desc") {
				o.desc = true
			} else {
				p.accept("asc")
			}
			if p.accept("nulls") {
				p.i++
			}
			st.order = append(st.order, o)
			if !p.accept(",") {
				break
			}
		}
	}
	for {
		switch {
		case p.accept("limit"):
			if !p.accept("all") {
				st.limit = p.expr()
			}
			continue
		case p.accept("offset"):
			st.offset = p.expr()
			continue
		}
		break
	}
	if p.accept("for") {
		if !p.accept("update") && !p.accept("no", "key", "update") && !p.accept("share") && !p.accept("key", "share") {
			p.fail("for")
		}
		st.forUpdate = true
	}
	return st
}

func (p *pgParser) returningOpt(st *pgStmt) {
	if p.accept("returning") {
		st.returning = p.selectItems()
	}
}

var pgNotifyRe = regexp.MustCompile(`(?is)pg_notify\(\s*'([^']*)'\s*,\s*row_to_json\(\s*NEW\s*\)\s*::\s*text\s*\)`)

// pgParse parses one statement.
func pgParse(q string) (st *pgStmt, err *pgErr) {
	toks, lerr := pgLex(q)
	if lerr != nil {
		return nil, lerr
	}
	p := &pgParser{t: toks}
	defer func() {
		if r := recover(); r != nil {
			s, ok := r.(pgSyntax)
			if !ok {
				panic(r)
			}
			st, err = nil, s.e
		}
	}()
	for p.accept(";") {
	}
	st = p.statement(q)
	for p.accept(";") {
	}
	if p.i < len(p.t) {
		p.fail("one statement expected")
	}
	st.nparams = p.n
	return st, nil
}

func (p *pgParser) rest() { p.i = len(p.t) }

func (p *pgParser) statement(q string) *pgStmt {
	st := &pgStmt{}
	switch {
	case p.i >= len(p.t):
		st.kind = "empty"
	case p.is("select"):
		return p.selectStmt()
	case p.is("begin"), p.is("start"):
		st.kind = "begin"
		for ; p.i < len(p.t); p.i++ {
			if p.is("repeatable", "read") || p.is("serializable") {
				st.isolation = "rr"
			}
		}
	case p.is("commit"), p.is("end"):
		st.kind = "commit"
		p.rest()
	case p.is("rollback"), p.is("abort"):
		if p.is("rollback", "to") {
			p.fail("savepoints are not supported")
		}
		st.kind = "rollback"
		p.rest()
	case p.is("set"), p.is("show"), p.is("reset"), p.is("discard"):
		if p.is("set", "transaction") {
			for ; p.i < len(p.t); p.i++ {
				if p.is("repeatable", "read") || p.is("serializable") {
					st.isolation = "rr"
				}
			}
		}
		st.kind = "set"
		p.rest()
	case p.accept("listen"):
		st.kind, st.ddl = "listen", p.ident()
	case p.accept("unlisten"):
		st.kind = "unlisten"
		p.rest()
	case p.accept("notify"):
		st.kind, st.ddl = "notify", p.ident()
		p.rest()
	case p.accept("insert", "into"):
		st.kind = "insert"
		st.table = p.tableName()
		p.aliasOpt(st)
		if p.accept("(") {
			for {
				st.cols = append(st.cols, p.ident())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
		}
		if p.is("select") {
			st.from = p.selectStmt()
		} else {
			p.expect("values")
			for {
				p.expect("(")
				var row []*pgExpr
				for {
					row = append(row, p.expr())
					if !p.accept(",") {
						break
					}
				}
				p.expect(")")
				st.rows = append(st.rows, row)
				if !p.accept(",") {
					break
				}
			}
		}
		if p.accept("on", "conflict") {
			if p.accept("(") {
				for {
					st.conflCols = append(st.conflCols, p.ident())
					if !p.accept(",") {
						break
					}
				}
				p.expect(")")
			} else if p.accept("on", "constraint") {
				st.conflCols = []string{"!" + p.ident()}
			}
			p.expect("do")
			if p.accept("nothing") {
				st.conflict = "nothing"
			} else {
				p.expect("update", "set")
				st.conflict = "update"
				p.assignments(st)
				if p.accept("where") {
					st.where = p.expr()
				}
			}
		}
		p.returningOpt(st)
	case p.accept("update"):
		st.kind = "update"
		st.table = p.tableName()
		p.aliasOpt(st)
		p.expect("set")
		p.assignments(st)
		if p.accept("where") {
			st.where = p.expr()
		}
		p.returningOpt(st)
	case p.accept("delete", "from"):
		st.kind = "delete"
		st.table = p.tableName()
		p.aliasOpt(st)
		if p.accept("where") {
			st.where = p.expr()
		}
		p.returningOpt(st)
	case p.accept("truncate"):
		p.accept("table")
		st.kind, st.table = "truncate", p.tableName()
		p.rest()
	case p.accept("create", "table"):
		p.createTable(st)
	case p.is("create"), p.is("drop"), p.is("alter"), p.is("grant"), p.is("comment"), p.is("do"), p.is("analyze"), p.is("vacuum"):
		st.kind = "ddl"
		st.ddl = q
		if p.is("create", "trigger") || p.is("create", "or", "replace", "trigger") {
			for ; p.i < len(p.t); p.i++ {
				if p.accept("on") {
					st.table = p.tableName()
					p.i--
				}
				if p.is("procedure") || p.is("function") {
					st.alias = p.t[p.i+1].s
				}
			}
			st.kind = "trigger"
		}
		if p.is("drop", "trigger") {
			st.kind = "droptrigger"
			for ; p.i < len(p.t); p.i++ {
				if p.accept("on") {
					st.table = p.tableName()
					p.i--
				}
			}
		}
		if p.is("create", "or", "replace", "function") || p.is("create", "function") {
			st.kind = "function"
			for p.peek().s != "function" {
				p.i++
			}
			p.i++
			st.alias = p.ident()
			if m := pgNotifyRe.FindStringSubmatch(q); m != nil {
				st.table = m[1]
			}
		}
		if p.is("create", "unique", "index") {
			p.fail("unique indexes are not supported")
		}
		p.rest()
	case p.accept("lock"):
		p.fail("lock table is not supported")
	default:
		p.fail("statement")
	}
	return st
}

func (p *pgParser) assignments(st *pgStmt) {
	st.sets = map[string]*pgExpr{}
	for {
		c := p.ident()
		p.expect("=")
		st.sets[c] = p.expr()
		if !p.accept(",") {
			return
		}
	}
}

func (p *pgParser) createTable(st *pgStmt) {
	st.kind = "table"
	st.ifNot = p.accept("if", "not", "exists")
	t := &pgTable{name: p.tableName()}
	st.cd = t
	p.expect("(")
	colList := func() []int {
		p.expect("(")
		var r []int
		for {
			n := p.ident()
			k := t.col(n)
			if k < 0 {
				p.fail("column")
			}
			r = append(r, k)
			if !p.accept(",") {
				break
			}
		}
		p.expect(")")
		return r
	}
	for {
		switch {
		case p.accept("primary", "key"):
			t.uniques = append(t.uniques, pgUnique{t.name + "_pkey", colList()})
		case p.accept("unique"):
			cs := colList()
			n := t.name
			for _, c := range cs {
				n += "_" + t.cols[c].name
			}
			t.uniques = append(t.uniques, pgUnique{n + "_key", cs})
		default:
			c := pgCol{name: p.ident(), typ: p.typeName()}
			switch c.typ {
			case "serial", "serial4":
				c.typ, c.serial, c.notNull = "int4", true, true
			case "bigserial", "serial8":
				c.typ, c.serial, c.notNull = "int8", true, true
			case "integer", "int", "int4":
				c.typ = "int4"
			case "bigint", "int8":
				c.typ = "int8"
			case "text", "varchar", "character varying", "json", "jsonb", "uuid":
				c.typ = "text"
			case "boolean", "bool":
				c.typ = "bool"
			default:
				p.fail("type " + c.typ)
			}
			idx := len(t.cols)
			for !p.is(",") && !p.is(")") {
				switch {
				case p.accept("primary", "key"):
					c.notNull = true
					t.uniques = append(t.uniques, pgUnique{t.name + "_pkey", []int{idx}})
				case p.accept("unique"):
					t.uniques = append(t.uniques, pgUnique{t.name + "_" + c.name + "_key", []int{idx}})
				case p.accept("not", "null"):
					c.notNull = true
				case p.accept("null"):
				case p.accept("default"):
					c.def = p.expr()
				default:
					p.fail("column constraint")
				}
			}
			t.cols = append(t.cols, c)
		}
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
}

// ---- storage ----

type pgCol struct {
	name, typ string
	serial    bool
	notNull   bool
	def       *pgExpr
}

type pgUnique struct {
	name string
	cols []int
}

type pgTable struct {
	name    string
	cols    []pgCol
	rows    []*pgRow
	uniques []pgUnique
	seq     int64
	notify  string
}

func (t *pgTable) col(n string) int {
	for i, c := range t.cols {
		if c.name == n {
			return i
		}
	}
	return -1
}

type pgRow struct {
	vals       []interface{}
	xmin, xmax *pgTx
	lock       *pgTx
	next       *pgRow
}

type pgTx struct {
	s        *pgSess
	state    int // 0 active, 1 committed, 2 aborted
	seq      int64
	snap     int64 // fixed snapshot, -1: one per statement
	rr       bool
	explicit bool
	failed   bool
	locks    []int64
	notes    [][2]string
	done     chan struct{}
	waits    *pgTx
}

func (r *pgRow) visible(tx *pgTx, snap int64) bool {
	if !(r.xmin == tx || r.xmin.state == 1 && r.xmin.seq <= snap) {
		return false
	}
	return r.xmax == nil || !(r.xmax == tx || r.xmax.state == 1 && r.xmax.seq <= snap)
}

type pgAdvLock struct {
	holder *pgSess
	count  int
	queue  []*pgWaiter
}

type pgWaiter struct {
	s  *pgSess
	ch chan struct{}
}

type pgDB struct {
	tables map[string]*pgTable
	funcs  map[string]string // trigger function -> channel
	seq    int64
	adv    map[int64]*pgAdvLock
	sess   []*pgSess
}

func newPgDB() *pgDB {
	return &pgDB{tables: map[string]*pgTable{}, funcs: map[string]string{}, adv: map[int64]*pgAdvLock{}}
}

// wait blocks the session until the other transaction has ended.
func (s *pgSess) wait(o *pgTx) *pgErr {
	s.tx.waits = o
	defer func() { s.tx.waits = nil }()
	for t := o; t != nil; t = t.waits {
		if t == s.tx {
			return pgErrf("40P01", "deadlock detected")
		}
	}
	select {
	case <-o.done:
		return nil
	case <-s.cancelled:
		return pgErrf("57014", "canceling statement due to user request")
	case <-s.closed:
		return pgErrf("57P01", "terminating connection")
	}
}

func (s *pgSess) advLock(key int64, session bool) *pgErr {
	l := s.db.adv[key]
	if l == nil {
		l = &pgAdvLock{}
		s.db.adv[key] = l
	}
	if l.holder == nil {
		l.holder = s
	}
	if l.holder != s {
		w := &pgWaiter{s, make(chan struct{}, 1)}
		l.queue = append(l.queue, w)
		s.tx.waits = l.holder.tx
		for t := l.holder.tx; t != nil; t = t.waits {
			if t == s.tx {
				l.drop(w)
				s.tx.waits = nil
				return pgErrf("40P01", "deadlock detected")
			}
		}
		var e *pgErr
		select {
		case <-w.ch:
		case <-s.cancelled:
			e = pgErrf("57014", "canceling statement due to user request")
		case <-s.closed:
			e = pgErrf("57P01", "terminating connection")
		}
		s.tx.waits = nil
		if e != nil {
			l.drop(w)
			if l.holder == s { // granted at the same moment
				l.pass()
			}
			return e
		}
	}
	l.count++
	if session {
		s.advSession = append(s.advSession, key)
	} else {
		s.tx.locks = append(s.tx.locks, key)
	}
	return nil
}

func (l *pgAdvLock) drop(w *pgWaiter) {
	for i, x := range l.queue {
		if x == w {
			l.queue = append(l.queue[:i:i], l.queue[i+1:]...)
			return
		}
	}
}

func (l *pgAdvLock) pass() {
	l.holder, l.count = nil, 0
	if len(l.queue) > 0 {
		w := l.queue[0]
		l.queue = l.queue[1:]
		l.holder = w.s
		w.ch <- struct{}{}
	}
}

func (s *pgSess) advUnlock(key int64) bool {
	l := s.db.adv[key]
	if l == nil || l.holder != s {
		return false
	}
	l.count--
	if l.count <= 0 {
		l.pass()
	}
	return true
}

func (s *pgSess) endTx(commit bool) {
	tx := s.tx
	s.tx = nil
	if tx == nil {
		return
	}
	if commit {
		s.db.seq++
		tx.seq = s.db.seq
		tx.state = 1
	} else {
		tx.state = 2
	}
	for _, k := range tx.locks {
		s.advUnlock(k)
	}
	close(tx.done)
	if commit {
		for _, n := range tx.notes {
			for _, o := range s.db.sess {
				if o.listens[n[0]] {
					o.notify(s.pid, n[0], n[1])
				}
			}
		}
	}
}

// ---- evaluation ----

func pgToInt(v interface{}, typ string) (interface{}, *pgErr) {
	switch x := v.(type) {
	case nil:
		return nil, nil
	case int64:
		if typ == "int4" && (x > math.MaxInt32 || x < math.MinInt32) {
			return nil, pgErrf("22003", "integer out of range")
		}
		return x, nil
	case string:
		n, err := strconv.ParseInt(strings.TrimSpace(x), 10, 64)
		if err != nil {
			if ne, ok := err.(*strconv.NumError); ok && ne.Err == strconv.ErrRange {
				return nil, pgErrf("22003", "value %q is out of range for type %s", x, typ)
			}
			return nil, pgErrf("22P02", "invalid input syntax for type %s: %q", typ, x)
		}
		return pgToInt(n, typ)
	case bool:
		if x {
			return int64(1), nil
		}
		return int64(0), nil
	}
	return nil, pgErrf("42804", "cannot convert to %s", typ)
}

func pgText(v interface{}) string {
	switch x := v.(type) {
	case string:
		return x
	case int64:
		return strconv.FormatInt(x, 10)
	case bool:
		if x {
			return "t"
		}
		return "f"
	}
	return fmt.Sprint(v)
}

func pgCoerce(v interface{}, typ string) (interface{}, *pgErr) {
	if v == nil {
		return nil, nil
	}
	switch typ {
	case "int4", "int8":
		return pgToInt(v, typ)
	case "bool":
		switch x := v.(type) {
		case bool:
			return x, nil
		case string:
			switch strings.ToLower(x) {
			case "t", "true", "1", "yes", "on":
				return true, nil
			case "f", "false", "0", "no", "off":
				return false, nil
			}
		}
		return nil, pgErrf("22P02", "invalid input syntax for type boolean: %q", pgText(v))
	case "text":
		s := pgText(v)
		if strings.IndexByte(s, 0) >= 0 {
			return nil, pgErrf("22021", "invalid byte sequence for encoding \"UTF8\": 0x00")
		}
		return s, nil
	}
	return v, nil
}

func pgCast(v interface{}, typ string) (interface{}, *pgErr) {
	switch typ {
	case "int", "integer", "int4", "serial":
		return pgCoerce(v, "int4")
	case "bigint", "int8":
		return pgCoerce(v, "int8")
	case "text", "varchar", "json", "jsonb", "name":
		return pgCoerce(v, "text")
	case "bool", "boolean":
		return pgCoerce(v, "bool")
	case "text[]", "varchar[]":
		return pgArray(v)
	}
	return nil, pgErrf("0A000", "cast to %s is not supported", typ)
}

// pgArray reads an array value or literal ({"a","b"}).
func pgArray(v interface{}) (interface{}, *pgErr) {
	switch x := v.(type) {
	case nil:
		return nil, nil
	case []interface{}:
		return x, nil
	case string:
		bad := pgErrf("22P02", "malformed array literal: %q", x)
		if len(x) < 2 || x[0] != '{' || x[len(x)-1] != '}' {
			return nil, bad
		}
		r := []interface{}{}
		in := x[1 : len(x)-1]
		for i := 0; i < len(in); {
			if in[i] == '"' {
				var b strings.Builder
				i++
				for {
					if i >= len(in) {
						return nil, bad
					}
					if in[i] == '"' {
						i++
						break
					}
					if in[i] == '\\' {
						i++
						if i >= len(in) {
							return nil, bad
						}
					}
					b.WriteByte(in[i])
					i++
				}
				r = append(r, b.String())
			} else {
				j := i
				for j < len(in) && in[j] != ',' {
					j++
				}
				w := strings.TrimSpace(in[i:j])
				if w == "" || strings.ContainsAny(w, `"\{}`) {
					return nil, bad
				}
				if strings.EqualFold(w, "null") {
					r = append(r, nil)
				} else {
					r = append(r, w)
				}
				i = j
			}
			if i < len(in) {
				if in[i] != ',' {
					return nil, bad
				}
				i++
				if i == len(in) {
					return nil, bad
				}
			}
		}
		return r, nil
	}
	return nil, pgErrf("42804", "not an array")
}

// pgCompare compares two non-null values (a parameter takes the other's type).
func pgCompare(a, b interface{}) (int, *pgErr) {
	ai, aok := a.(int64)
	bi, bok := b.(int64)
	if aok != bok {
		var e *pgErr
		var v interface{}
		if aok {
			v, e = pgToInt(b, "bigint")
			if e == nil {
				bi = v.(int64)
			}
		} else {
			v, e = pgToInt(a, "bigint")
			if e == nil {
				ai = v.(int64)
			}
		}
		if e != nil {
			return 0, e
		}
		aok = true
	}
	if aok {
		switch {
		case ai < bi:
			return -1, nil
		case ai > bi:
			return 1, nil
		}
		return 0, nil
	}
	return strings.Compare(pgText(a), pgText(b)), nil
}

func pgCmpOp(op string, a, b interface{}) (interface{}, *pgErr) {
	if a == nil || b == nil {
		return nil, nil
	}
	c, e := pgCompare(a, b)
	if e != nil {
		return nil, e
	}
	switch op {
	case "=":
		return c == 0, nil
	case "<>":
		return c != 0, nil
	case "<":
		return c < 0, nil
	case "<=":
		return c <= 0, nil
	case ">":
		return c > 0, nil
	case ">=":
		return c >= 0, nil
	}
	return nil, pgErrf("42883", "operator %s", op)
}

func pgIsAgg(e *pgExpr) bool {
	if e == nil {
		return false
	}
	if e.op == "func" {
		switch e.name {
		case "max", "min", "count", "count*", "sum":
			return true
		}
	}
	for _, a := range e.args {
		if pgIsAgg(a) {
			return true
		}
	}
	return false
}

func (v *pgEnv) evalAll(es []*pgExpr) ([]interface{}, *pgErr) {
	var r []interface{}
	for _, e := range es {
		x, err := v.eval(e)
		if err != nil {
			return nil, err
		}
		r = append(r, x)
	}
	return r, nil
}

func (v *pgEnv) eval(e *pgExpr) (interface{}, *pgErr) {
	switch e.op {
	case "lit":
		return e.val, nil
	case "param":
		n := e.val.(int)
		if n < 0 || n >= len(v.params) {
			return nil, pgErrf("42P02", "there is no parameter $%d", n+1)
		}
		return v.params[n], nil
	case "col":
		x, ok := v.row[e.name]
		if !ok {
			return nil, pgErrf("42703", "column %q does not exist", e.name)
		}
		return x, nil
	case "cast":
		x, err := v.eval(e.args[0])
		if err != nil {
			return nil, err
		}
		return pgCast(x, e.typ)
	case "and", "or":
		a, err := v.eval(e.args[0])
		if err != nil {
			return nil, err
		}
		stop := e.op == "or"
		if b, ok := a.(bool); ok && b == stop {
			return a, nil
		}
		b, err := v.eval(e.args[1])
		if err != nil {
			return nil, err
		}
		if x, ok := b.(bool); ok && x == stop {
			return b, nil
		}
		if a == nil || b == nil {
			return nil, nil
		}
		return b, nil
	case "not":
		a, err := v.eval(e.args[0])
		if err != nil || a == nil {
			return nil, err
		}
		b, err := pgCoerce(a, "bool")
		if err != nil {
			return nil, err
		}
		return !b.(bool), nil
	case "isnull", "isnotnull":
		a, err := v.eval(e.args[0])
		return (a == nil) == (e.op == "isnull"), err
	case "=", "<>", "<", "<=", ">", ">=":
		r, err := v.evalAll(e.args)
		if err != nil {
			return nil, err
		}
		return pgCmpOp(e.op, r[0], r[1])
	case "any", "all":
		a, err := v.eval(e.args[0])
		if err != nil {
			return nil, err
		}
		var arr interface{}
		if e.args[1].op == "sub" {
			rows, err := v.s.sel(e.args[1].sel, v.params, v.snap)
			if err != nil {
				return nil, err
			}
			l := []interface{}{}
			for _, r := range rows {
				l = append(l, r[0])
			}
			arr = l
		} else {
			arr, err = v.eval(e.args[1])
			if err != nil {
				return nil, err
			}
			arr, err = pgArray(arr)
		}
		if err != nil || arr == nil || a == nil {
			return nil, err
		}
		null := false
		for _, x := range arr.([]interface{}) {
			r, err := pgCmpOp(e.name, a, x)
			if err != nil {
				return nil, err
			}
			if r == nil {
				null = true
			} else if r.(bool) == (e.op == "any") {
				return r, nil
			}
		}
		if null {
			return nil, nil
		}
		return e.op == "all", nil
	case "in":
		a, err := v.eval(e.args[0])
		if err != nil || a == nil {
			return nil, err
		}
		var l []interface{}
		if e.sel != nil {
			rows, err := v.s.sel(e.sel, v.params, v.snap)
			if err != nil {
				return nil, err
			}
			for _, r := range rows {
				l = append(l, r[0])
			}
		} else if l, err = v.evalAll(e.args[1:]); err != nil {
			return nil, err
		}
		null := false
		for _, x := range l {
			r, err := pgCmpOp("=", a, x)
			if err != nil {
				return nil, err
			}
			if r == true {
				return true, nil
			}
			null = null || r == nil
		}
		if null {
			return nil, nil
		}
		return false, nil
	case "||":
		r, err := v.evalAll(e.args)
		if err != nil || r[0] == nil || r[1] == nil {
			return nil, err
		}
		return pgText(r[0]) + pgText(r[1]), nil
	case "+", "-", "*", "/", "%":
		r, err := v.evalAll(e.args)
		if err != nil || r[0] == nil || r[1] == nil {
			return nil, err
		}
		a, err := pgToInt(r[0], "int8")
		if err != nil {
			return nil, err
		}
		b, err := pgToInt(r[1], "int8")
		if err != nil {
			return nil, err
		}
		x, y := a.(int64), b.(int64)
		switch e.op {
		case "+":
			return x + y, nil
		case "-":
			return x - y, nil
		case "*":
			return x * y, nil
		}
		if y == 0 {
			return nil, pgErrf("22012", "division by zero")
		}
		if e.op == "/" {
			return x / y, nil
		}
		return x % y, nil
	case "array":
		r, err := v.evalAll(e.args)
		if r == nil {
			r = []interface{}{}
		}
		return r, err
	case "case":
		i := 0
		for ; i+1 < len(e.args); i += 2 {
			c, err := v.eval(e.args[i])
			if err != nil {
				return nil, err
			}
			if c == true {
				return v.eval(e.args[i+1])
			}
		}
		if i < len(e.args) {
			return v.eval(e.args[i])
		}
		return nil, nil
	case "sub":
		rows, err := v.s.sel(e.sel, v.params, v.snap)
		if err != nil || len(rows) == 0 {
			return nil, err
		}
		if len(rows) > 1 {
			return nil, pgErrf("21000", "more than one row returned by a subquery")
		}
		return rows[0][0], nil
	case "exists":
		rows, err := v.s.sel(e.sel, v.params, v.snap)
		return len(rows) > 0, err
	case "func":
		return v.call(e)
	}
	return nil, pgErrf("0A000", "expression %s is not supported", e.op)
}

func (v *pgEnv) call(e *pgExpr) (interface{}, *pgErr) {
	switch e.name {
	case "max", "min", "count", "count*", "sum":
		if !v.grp {
			return nil, pgErrf("42803", "aggregate functions are not allowed here")
		}
		var acc interface{}
		n := int64(0)
		for _, row := range v.group {
			if e.name == "count*" {
				n++
				continue
			}
			in := *v
			in.row, in.grp, in.group = row, false, nil
			x, err := in.eval(e.args[0])
			if err != nil {
				return nil, err
			}
			if x == nil {
				continue
			}
			n++
			if acc == nil {
				acc = x
				continue
			}
			if e.name == "sum" {
				acc = acc.(int64) + x.(int64)
				continue
			}
			c, err := pgCompare(x, acc)
			if err != nil {
				return nil, err
			}
			if c > 0 == (e.name == "max") && c != 0 {
				acc = x
			}
		}
		if strings.HasPrefix(e.name, "count") {
			return n, nil
		}
		return acc, nil
	case "coalesce":
		for _, a := range e.args {
			x, err := v.eval(a)
			if err != nil || x != nil {
				return x, err
			}
		}
		return nil, nil
	}
	r, err := v.evalAll(e.args)
	if err != nil {
		return nil, err
	}
	key := func() (int64, *pgErr) {
		k := int64(0)
		for _, a := range r {
			x, err := pgToInt(a, "int8")
			if err != nil || x == nil {
				return 0, err
			}
			k = k<<32 ^ x.(int64)
		}
		return k, nil
	}
	switch e.name {
	case "pg_advisory_xact_lock", "pg_advisory_lock":
		k, err := key()
		if err != nil {
			return nil, err
		}
		return "", v.s.advLock(k, e.name == "pg_advisory_lock")
	case "pg_try_advisory_xact_lock", "pg_try_advisory_lock":
		k, err := key()
		if err != nil {
			return nil, err
		}
		if l := v.s.db.adv[k]; l != nil && l.holder != nil && l.holder != v.s {
			return false, nil
		}
		return true, v.s.advLock(k, e.name == "pg_try_advisory_lock")
	case "pg_advisory_unlock":
		k, err := key()
		if err != nil {
			return nil, err
		}
		return v.s.advUnlock(k), nil
	case "hashtext", "hashtextextended":
		h := int64(1)
		for _, c := range []byte(pgText(r[0])) {
			h = h*31 + int64(c)
		}
		return int64(int32(h)), nil
	case "pg_notify":
		v.s.tx.notes = append(v.s.tx.notes, [2]string{pgText(r[0]), pgText(r[1])})
		return "", nil
	case "lower":
		return strings.ToLower(pgText(r[0])), nil
	case "upper":
		return strings.ToUpper(pgText(r[0])), nil
	case "length":
		if r[0] == nil {
			return nil, nil
		}
		return int64(len([]rune(pgText(r[0])))), nil
	case "concat":
		s := ""
		for _, x := range r {
			if x != nil {
				s += pgText(x)
			}
		}
		return s, nil
	case "greatest":
		var acc interface{}
		for _, x := range r {
			if x == nil {
				continue
			}
			if acc != nil {
				if c, err := pgCompare(x, acc); err != nil || c <= 0 {
					if err != nil {
						return nil, err
					}
					continue
				}
			}
			acc = x
		}
		return acc, nil
	}
	return nil, pgErrf("42883", "function %s does not exist", e.name)
}

func (t *pgTable) env(row *pgRow, alias string) map[string]interface{} {
	m := make(map[string]interface{}, 2*len(t.cols))
	if alias == "" {
		alias = t.name
	}
	for i, c := range t.cols {
		var v interface{}
		if row != nil {
			v = row.vals[i]
		}
		m[c.name] = v
		m[alias+"."+c.name] = v
	}
	return m
}

// typedParams gives parameters compared with an integer column that column's
// type, as the server's type inference does (out-of-range values are errors).
func (s *pgSess) typedParams(t *pgTable, e *pgExpr, params []interface{}) *pgErr {
	if e == nil || t == nil {
		return nil
	}
	if len(e.args) == 2 && (e.op == "=" || e.op[0] == '<' || e.op[0] == '>') {
		for i := 0; i < 2; i++ {
			a, b := e.args[i], e.args[1-i]
			if a.op == "col" && b.op == "param" && b.val.(int) < len(params) {
				if k := t.col(a.name[strings.LastIndexByte(a.name, '.')+1:]); k >= 0 {
					v, err := pgCoerce(params[b.val.(int)], t.cols[k].typ)
					if err != nil {
						return err
					}
					params[b.val.(int)] = v
				}
			}
		}
	}
	for _, a := range e.args {
		if err := s.typedParams(t, a, params); err != nil {
			return err
		}
	}
	return nil
}

func (s *pgSess) table(n string) (*pgTable, *pgErr) {
	t := s.db.tables[n]
	if t == nil {
		return nil, pgErrf("42P01", "relation %q does not exist", n)
	}
	return t, nil
}

func (st *pgStmt) outCols(t *pgTable, items []pgItem) (names, types []string) {
	for _, it := range items {
		if it.star {
			if t != nil {
				for _, c := range t.cols {
					names = append(names, c.name)
					types = append(types, c.typ)
				}
			}
			continue
		}
		names = append(names, it.name)
		types = append(types, pgExprType(t, it.e))
	}
	return
}

func pgExprType(t *pgTable, e *pgExpr) string {
	switch e.op {
	case "lit":
		switch e.val.(type) {
		case int64:
			return "int4"
		case bool:
			return "bool"
		}
		return "text"
	case "col":
		if t != nil {
			if k := t.col(e.name[strings.LastIndexByte(e.name, '.')+1:]); k >= 0 {
				return t.cols[k].typ
			}
		}
		return "text"
	case "cast":
		switch e.typ {
		case "int", "integer", "int4":
			return "int4"
		case "bigint", "int8":
			return "int8"
		case "bool", "boolean":
			return "bool"
		}
		return "text"
	case "func":
		switch e.name {
		case "count", "count*", "sum", "length":
			return "int8"
		case "max", "min", "coalesce", "greatest":
			return pgExprType(t, e.args[0])
		case "pg_advisory_xact_lock", "pg_advisory_lock", "pg_notify":
			return "void"
		case "pg_try_advisory_xact_lock", "pg_try_advisory_lock", "pg_advisory_unlock":
			return "bool"
		case "hashtext":
			return "int4"
		}
		return "text"
	case "+", "-", "*", "/", "%":
		a := pgExprType(t, e.args[0])
		if a == "int8" || pgExprType(t, e.args[1]) == "int8" {
			return "int8"
		}
		return "int4"
	case "and", "or", "not", "=", "<>", "<", "<=", ">", ">=", "any", "all", "in", "exists", "isnull", "isnotnull":
		return "bool"
	case "sub":
		return "int8"
	case "case":
		return pgExprType(t, e.args[1])
	}
	return "text"
}

func (v *pgEnv) items(t *pgTable, items []pgItem) ([]interface{}, *pgErr) {
	var r []interface{}
	for _, it := range items {
		if it.star {
			for _, c := range t.cols {
				r = append(r, v.row[c.name])
			}
			continue
		}
		x, err := v.eval(it.e)
		if err != nil {
			return nil, err
		}
		r = append(r, x)
	}
	return r, nil
}

// match evaluates a condition.
func (v *pgEnv) match(e *pgExpr) (bool, *pgErr) {
	if e == nil {
		return true, nil
	}
	x, err := v.eval(e)
	return x == true, err
}

// sel runs a SELECT on one snapshot.
func (s *pgSess) sel(st *pgStmt, params []interface{}, snap int64) ([][]interface{}, *pgErr) {
	env := &pgEnv{s: s, snap: snap, params: params}
	var t *pgTable
	rows := []map[string]interface{}{{}}
	if st.table != "" {
		var err *pgErr
		if t, err = s.table(st.table); err != nil {
			return nil, err
		}
		params = append([]interface{}(nil), params...)
		env.params = params
		if err := s.typedParams(t, st.where, params); err != nil {
			return nil, err
		}
		rows = rows[:0]
		for _, row := range t.rows {
			if !row.visible(s.tx, snap) {
				continue
			}
			env.row = t.env(row, st.alias)
			ok, err := env.match(st.where)
			if err != nil {
				return nil, err
			}
			if !ok {
				continue
			}
			if st.forUpdate {
				for row.lock != nil && row.lock != s.tx && row.lock.state == 0 || row.xmax != nil && row.xmax != s.tx && row.xmax.state == 0 {
					o := row.lock
					if o == nil || o == s.tx || o.state != 0 {
						o = row.xmax
					}
					if err := s.wait(o); err != nil {
						return nil, err
					}
				}
				if row.xmax != nil && row.xmax.state == 1 {
					if s.tx.rr {
						return nil, pgErrf("40001", "could not serialize access due to concurrent update")
					}
					for row != nil && row.xmax != nil && row.xmax.state == 1 {
						row = row.next
					}
					if row == nil {
						continue
					}
					env.row = t.env(row, st.alias)
					if ok, err := env.match(st.where); err != nil || !ok {
						if err != nil {
							return nil, err
						}
						continue
					}
				}
				row.lock = s.tx
			}
			rows = append(rows, env.row)
		}
	}
	type outRow struct {
		vals []interface{}
		keys []interface{}
	}
	var out []outRow
	emit := func() *pgErr {
		vals, err := env.items(t, st.items)
		if err != nil {
			return err
		}
		o := outRow{vals: vals}
		for _, or := range st.order {
			var k interface{}
			if or.e.op == "lit" {
				if n, ok := or.e.val.(int64); ok && n >= 1 && int(n) <= len(vals) {
					k = vals[n-1]
				}
			} else {
				named := -1
				if or.e.op == "col" {
					for i, it := range st.items {
						if !it.star && it.name == or.e.name {
							named = i
						}
					}
				}
				if named >= 0 && len(vals) == len(st.items) {
					k = vals[named]
				} else if k, err = env.eval(or.e); err != nil {
					return err
				}
			}
			o.keys = append(o.keys, k)
		}
		out = append(out, o)
		return nil
	}
	agg := len(st.group) > 0
	for _, it := range st.items {
		agg = agg || pgIsAgg(it.e)
	}
	if agg {
		type grp struct {
			key  string
			rows []map[string]interface{}
		}
		var gs []*grp
		if len(st.group) == 0 {
			gs = append(gs, &grp{rows: rows})
		} else {
			for _, row := range rows {
				env.row = row
				k := ""
				for _, g := range st.group {
					x, err := env.eval(g)
					if err != nil {
						return nil, err
					}
					k += fmt.Sprintf("%v\x00", x)
				}
				var g *grp
				for _, x := range gs {
					if x.key == k {
						g = x
					}
				}
				if g == nil {
					g = &grp{key: k}
					gs = append(gs, g)
				}
				g.rows = append(g.rows, row)
			}
		}
		for _, g := range gs {
			env.grp, env.group = true, g.rows
			env.row = nil
			if len(g.rows) > 0 {
				env.row = g.rows[0]
			} else if t != nil {
				env.row = t.env(nil, st.alias)
			}
			if ok, err := env.match(st.having); err != nil || !ok {
				if err != nil {
					return nil, err
				}
				continue
			}
			if err := emit(); err != nil {
				return nil, err
			}
		}
		env.grp = false
	} else {
		for _, row := range rows {
			env.row = row
			if err := emit(); err != nil {
				return nil, err
			}
		}
	}
	if len(st.order) > 0 {
		var cerr *pgErr
		sort.SliceStable(out, func(i, j int) bool {
			for k, or := range st.order {
				a, b := out[i].keys[k], out[j].keys[k]
				if a == nil || b == nil {
					if a == nil && b == nil {
						continue
					}
					return (b == nil) != or.desc
				}
				c, err := pgCompare(a, b)
				if err != nil {
					cerr = err
				}
				if c != 0 {
					return (c < 0) != or.desc
				}
			}
			return false
		})
		if cerr != nil {
			return nil, cerr
		}
	} else if len(out) > 1 && t != nil && !s.noShuffle {
		// without ORDER BY the order is up to the server
		for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
			out[i], out[j] = out[j], out[i]
		}
	}
	var res [][]interface{}
	for _, o := range out {
		if st.distinct {
			dup := false
			for _, r := range res {
				dup = dup || fmt.Sprint(r) == fmt.Sprint(o.vals)
			}
			if dup {
				continue
			}
		}
		res = append(res, o.vals)
	}
	bound := func(e *pgExpr) (int, *pgErr) {
		x, err := env.eval(e)
		if err != nil || x == nil {
			return -1, err
		}
		n, err := pgToInt(x, "int8")
		if err != nil {
			return 0, err
		}
		return int(n.(int64)), nil
	}
	if st.offset != nil {
		n, err := bound(st.offset)
		if err != nil {
			return nil, err
		}
		if n > len(res) {
			n = len(res)
		}
		if n > 0 {
			res = res[n:]
		}
	}
	if st.limit != nil {
		n, err := bound(st.limit)
		if err != nil {
			return nil, err
		}
		if n >= 0 && n < len(res) {
			res = res[:n]
		}
	}
	return res, nil
}

// conflict finds a row that violates a unique constraint, waiting for
// transactions that are still deciding.
func (s *pgSess) conflict(t *pgTable, vals []interface{}, self *pgRow) (*pgRow, *pgUnique, *pgErr) {
again:
	for ui := range t.uniques {
		u := &t.uniques[ui]
		for _, row := range t.rows {
			if row == self || row.xmin.state == 2 {
				continue
			}
			same := true
			for _, c := range u.cols {
				if vals[c] == nil || row.vals[c] == nil || vals[c] != row.vals[c] {
					same = false
				}
			}
			if !same {
				continue
			}
			if row.xmax != nil && (row.xmax == s.tx || row.xmax.state == 1) {
				continue
			}
			var o *pgTx
			if row.xmin != s.tx && row.xmin.state == 0 {
				o = row.xmin
			} else if row.xmax != nil && row.xmax.state == 0 {
				o = row.xmax
			}
			if o != nil {
				if err := s.wait(o); err != nil {
					return nil, nil, err
				}
				goto again
			}
			return row, u, nil
		}
	}
	return nil, nil, nil
}

func (s *pgSess) checkRow(t *pgTable, vals []interface{}) *pgErr {
	for i, c := range t.cols {
		if c.notNull && vals[i] == nil {
			return pgErrf("23502", "null value in column %q violates not-null constraint", c.name)
		}
	}
	return nil
}

func (t *pgTable) triggerNote(row *pgRow) string {
	var b strings.Builder
	b.WriteByte('{')
	for i, c := range t.cols {
		if i > 0 {
			b.WriteByte(',')
		}
		k, _ := json.Marshal(c.name)
		v, _ := json.Marshal(row.vals[i])
		b.Write(k)
		b.WriteByte(':')
		b.Write(v)
	}
	b.WriteByte('}')
	return b.String()
}

// target locks a visible row for modification; it returns the version to
// change, or nil when it no longer matches.
func (s *pgSess) target(t *pgTable, row *pgRow, st *pgStmt, env *pgEnv) (*pgRow, *pgErr) {
	for {
		if row.xmax != nil && row.xmax != s.tx && row.xmax.state == 0 {
			if err := s.wait(row.xmax); err != nil {
				return nil, err
			}
			continue
		}
		if row.lock != nil && row.lock != s.tx && row.lock.state == 0 {
			if err := s.wait(row.lock); err != nil {
				return nil, err
			}
			continue
		}
		if row.xmax == s.tx {
			return nil, nil
		}
		if row.xmax != nil && row.xmax.state == 1 {
			if s.tx.rr {
				return nil, pgErrf("40001", "could not serialize access due to concurrent update")
			}
			if row.next == nil {
				return nil, nil
			}
			row = row.next
			env.row = t.env(row, st.alias)
			ok, err := env.match(st.where)
			if err != nil || !ok {
				return nil, err
			}
			continue
		}
		return row, nil
	}
}

type pgResult struct {
	rows [][]interface{}
	tag  string
	n    int
}

// run executes one statement inside the session's current transaction.
func (s *pgSess) run(st *pgStmt, params []interface{}) (*pgResult, *pgErr) {
	if !s.tx.rr || s.tx.snap < 0 {
		s.tx.snap = s.db.seq
	}
	snap := s.tx.snap
	env := &pgEnv{s: s, snap: snap, params: append([]interface{}(nil), params...)}
	switch st.kind {
	case "select":
		rows, err := s.sel(st, params, snap)
		return &pgResult{rows: rows, tag: fmt.Sprintf("SELECT %d", len(rows))}, err
	case "table":
		if s.db.tables[st.cd.name] != nil {
			if !st.ifNot {
				return nil, pgErrf("42P07", "relation %q already exists", st.cd.name)
			}
		} else {
			s.db.tables[st.cd.name] = st.cd
		}
		return &pgResult{tag: "CREATE TABLE"}, nil
	case "function":
		s.db.funcs[st.alias] = st.table
		return &pgResult{tag: "CREATE FUNCTION"}, nil
	case "trigger":
		t, err := s.table(st.table)
		if err != nil {
			return nil, err
		}
		ch, ok := s.db.funcs[st.alias]
		if !ok {
			return nil, pgErrf("42883", "function %s() does not exist", st.alias)
		}
		t.notify = ch
		return &pgResult{tag: "CREATE TRIGGER"}, nil
	case "droptrigger":
		if t := s.db.tables[st.table]; t != nil {
			t.notify = ""
		}
		return &pgResult{tag: "DROP TRIGGER"}, nil
	case "ddl", "set":
		return &pgResult{tag: "SET"}, nil
	case "listen":
		s.listens[st.ddl] = true
		return &pgResult{tag: "LISTEN"}, nil
	case "unlisten":
		s.listens = map[string]bool{}
		return &pgResult{tag: "UNLISTEN"}, nil
	case "truncate":
		t, err := s.table(st.table)
		if err != nil {
			return nil, err
		}
		t.rows = nil
		return &pgResult{tag: "TRUNCATE TABLE"}, nil
	}
	t, err := s.table(st.table)
	if err != nil {
		return nil, err
	}
	res := &pgResult{}
	ret := func(row *pgRow) *pgErr {
		res.n++
		if st.returning == nil {
			return nil
		}
		env.row = t.env(row, st.alias)
		vals, err := env.items(t, st.returning)
		res.rows = append(res.rows, vals)
		return err
	}
	set := func(old *pgRow, sets map[string]*pgExpr, excluded []interface{}) (*pgRow, *pgErr) {
		vals := append([]interface{}(nil), old.vals...)
		env.row = t.env(old, st.alias)
		if excluded != nil {
			for i, c := range t.cols {
				env.row["excluded."+c.name] = excluded[i]
			}
		}
		for c, e := range sets {
			k := t.col(c)
			if k < 0 {
				return nil, pgErrf("42703", "column %q does not exist", c)
			}
			x, err := env.eval(e)
			if err != nil {
				return nil, err
			}
			if vals[k], err = pgCoerce(x, t.cols[k].typ); err != nil {
				return nil, err
			}
		}
		if err := s.checkRow(t, vals); err != nil {
			return nil, err
		}
		if _, u, err := s.conflict(t, vals, old); err != nil {
			return nil, err
		} else if u != nil {
			return nil, &pgErr{"23505", fmt.Sprintf("duplicate key value violates unique constraint %q", u.name), u.name, t.name}
		}
		n := &pgRow{vals: vals, xmin: s.tx}
		old.xmax, old.next = s.tx, n
		t.rows = append(t.rows, n)
		return n, nil
	}
	switch st.kind {
	case "insert":
		cols := st.cols
		if cols == nil {
			for _, c := range t.cols {
				cols = append(cols, c.name)
			}
		}
		var src [][]interface{}
		if st.from != nil {
			if src, err = s.sel(st.from, params, snap); err != nil {
				return nil, err
			}
		} else {
			for _, r := range st.rows {
				vals := make([]interface{}, len(r))
				for i, e := range r {
					if e.op == "default" {
						vals[i] = pgTok{}
						continue
					}
					if vals[i], err = env.eval(e); err != nil {
						return nil, err
					}
				}
				src = append(src, vals)
			}
		}
		for _, in := range src {
			if len(in) > len(cols) {
				return nil, pgErrf("42601", "INSERT has more expressions than target columns")
			}
			vals := make([]interface{}, len(t.cols))
			given := make([]bool, len(t.cols))
			for i, v := range in {
				k := t.col(cols[i])
				if k < 0 {
					return nil, pgErrf("42703", "column %q of relation %q does not exist", cols[i], t.name)
				}
				if _, def := v.(pgTok); def {
					continue
				}
				given[k] = true
				if vals[k], err = pgCoerce(v, t.cols[k].typ); err != nil {
					return nil, err
				}
			}
			for k, c := range t.cols {
				if given[k] {
					continue
				}
				if c.serial {
					t.seq++
					vals[k] = t.seq
				} else if c.def != nil {
					if vals[k], err = env.eval(c.def); err != nil {
						return nil, err
					}
				}
			}
			if err := s.checkRow(t, vals); err != nil {
				return nil, err
			}
			old, u, err := s.conflict(t, vals, nil)
			if err != nil {
				return nil, err
			}
			if u != nil {
				covered := st.conflict != "" && len(st.conflCols) == 0
				if st.conflict != "" && len(st.conflCols) > 0 {
					want := map[string]bool{}
					for _, c := range st.conflCols {
						want[c] = true
					}
					covered = want["!"+u.name]
					if !covered && len(want) == len(u.cols) {
						covered = true
						for _, c := range u.cols {
							covered = covered && want[t.cols[c].name]
						}
					}
				}
				if !covered {
					return nil, &pgErr{"23505", fmt.Sprintf("duplicate key value violates unique constraint %q", u.name), u.name, t.name}
				}
				if st.conflict == "nothing" {
					continue
				}
				env.row = t.env(old, st.alias)
				for i, c := range t.cols {
					env.row["excluded."+c.name] = vals[i]
				}
				if ok, err := env.match(st.where); err != nil || !ok {
					if err != nil {
						return nil, err
					}
					continue
				}
				n, err := set(old, st.sets, vals)
				if err != nil {
					return nil, err
				}
				if err := ret(n); err != nil {
					return nil, err
				}
				continue
			}
			row := &pgRow{vals: vals, xmin: s.tx}
			t.rows = append(t.rows, row)
			if t.notify != "" {
				note := t.triggerNote(row)
				if len(note) >= 8000 {
					return nil, pgErrf("22023", "payload string too long")
				}
				s.tx.notes = append(s.tx.notes, [2]string{t.notify, note})
			}
			if err := ret(row); err != nil {
				return nil, err
			}
		}
		res.tag = fmt.Sprintf("INSERT 0 %d", res.n)
		return res, nil
	case "update", "delete":
		if err := s.typedParams(t, st.where, env.params); err != nil {
			return nil, err
		}
		var hit []*pgRow
		for _, row := range t.rows {
			if !row.visible(s.tx, snap) {
				continue
			}
			env.row = t.env(row, st.alias)
			ok, err := env.match(st.where)
			if err != nil {
				return nil, err
			}
			if ok {
				hit = append(hit, row)
			}
		}
		for _, row := range hit {
			row, err := s.target(t, row, st, env)
			if err != nil {
				return nil, err
			}
			if row == nil {
				continue
			}
			if st.kind == "delete" {
				row.xmax, row.next = s.tx, nil
				if err := ret(row); err != nil {
					return nil, err
				}
				continue
			}
			n, err := set(row, st.sets, nil)
			if err != nil {
				return nil, err
			}
			if err := ret(n); err != nil {
				return nil, err
			}
		}
		res.tag = fmt.Sprintf("%s %d", strings.ToUpper(st.kind), res.n)
		return res, nil
	}
	return nil, pgErrf("0A000", "statement %s is not supported", st.kind)
}
