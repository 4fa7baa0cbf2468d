package h

import (
	"bytes"
	_ "embed"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"

	"github.com/inklabs/rangedb/pkg/commandgenerator"
	"github.com/inklabs/rangedb/pkg/eventparser"
	"github.com/inklabs/rangedb/pkg/structparser"

	"verifmc/ctl"
	"verifmc/explore"
)

//go:embed gendriver.txt
var genDriver string

type genField struct{ Name, Role, Target string }

type genSpec struct {
	Type, ID, Agg, Subject string
	Command                bool
	Fields                 []genField

	src string
}

// genDir makes a module beside the checker's build that can import the repository.
func genDir(x *ctl.X, files map[string]string) string {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	build := filepath.Dir(exe)
	dir, err := os.MkdirTemp(build, "gen")
	if err != nil {
		panic(err)
	}
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(build, f))
		if err != nil {
			panic(err)
		}
		files[f] = string(b)
	}
	for n, s := range files {
		p := filepath.Join(dir, n)
		_ = os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
			panic(err)
		}
	}
	return dir
}

// command runs a program and returns its output.
func command(dir string, env []string, args ...string) (string, error) {
	out, err := os.CreateTemp("", "gen")
	if err != nil {
		panic(err)
	}
	defer os.Remove(out.Name())
	defer out.Close()
	c := exec.Command(args[0], args[1:]...)
	c.Dir, c.Stdout, c.Stderr = dir, out, out
	c.Env = append(os.Environ(), env...)
	err = c.Run()
	b, _ := os.ReadFile(out.Name())
	return string(b), err
}

// fieldKind is a way to declare one or more fields.
type fieldKind struct {
	decl   string // # is replaced by "personal-data" encryption
	fields []genField
}

func personal(names ...string) fieldKind {
	k := fieldKind{decl: strings.Join(names, ", ") + " string `encrypt:\"personal-data\"`"}
	for _, n := range names {
		k.fields = append(k.fields, genField{n, "personal", ""})
	}
	return k
}

func serialized(name, target string, targetFirst bool) fieldKind {
	k := fieldKind{decl: fmt.Sprintf("%s int `encrypt:\"personal-data\" serialized:\"%s\"`\n\t%s string", name, target, target), fields: []genField{{name, "serialized", target}, {target, "target", ""}}}
	if targetFirst {
		k.decl = fmt.Sprintf("%s string `json:\"t\"`\n\t%s int `serialized:\"%s\" encrypt:\"personal-data\"`", target, name, target)
	}
	return k
}

func plainField(decl, name string) fieldKind {
	return fieldKind{decl: decl, fields: []genField{{name, "plain", ""}}}
}

func tagged(name, tag string) fieldKind {
	return fieldKind{decl: name + " string " + tag, fields: []genField{{name, "personal", ""}}}
}

// fieldKinds: ordinary declarations first.
var fieldKinds = []fieldKind{
	personal("Name"),
	personal("Email"),
	serialized("Number", "NumberEncrypted", false),
	plainField("Status string", "Status"),
	serialized("Year", "YearEncrypted", true),
	personal("First", "Last"),
	plainField("Count int `json:\"count\"`", "Count"),
	tagged("Tagged", "`json:\"tagged,omitempty\" encrypt:\"personal-data\" xml:\"t\"`"),
	tagged("Quoted", "\"encrypt:\\\"personal-data\\\"\""),
	personal("name"),
	personal("Type"),
	personal("Range", "Default"),
	personal("Err"),
	personal("E"),
	personal("Encryptor"),
	personal("Crypto"),
	serialized("Crypto", "Strconv", false),
	serialized("Strconv", "Err", false),
	personal("StringNumber"),
	personal("DecryptedNumber"),
	serialized("Func", "Var", false),
	serialized("A1", "a1", false),
	personal("stringNumber", "decryptedNumber"),
	personal("Été"),
	serialized("Âge", "ÂgeChiffré", false),
	personal("X_", "x_"),
	personal("String", "Nil", "Error"),
	personal("type_"),
	personal("ErrorString"),
	plainField("First, Second bool", "Second"),
	plainField("List []string `json:\"list\"`", "List"),
	plainField("Name2 string `bad tag`", "Name2"),
	plainField("Sub struct{ Name string }", "Sub"),
	plainField("*embedded", "embedded"),
	tagged("Commented", "`encrypt:\"personal-data\"` // `encrypt:\"subject-id\"`"),
}

// declarations: all sets of up to two field kinds, and of three of the first few, for several ways to name the subject.
func declarations(full int) []genSpec {
	var out []genSpec
	add := func(kinds []fieldKind, idMode, n int) {
		s := genSpec{Type: fmt.Sprintf("Thing%dWasDone", n), Agg: "thing"}
		if n%7 == 3 {
			s.Type = fmt.Sprintf("Évènement%d", n)
		}
		var id fieldKind
		switch idMode {
		case 0:
			s.ID, s.Subject = "ID", "ID"
			id = fieldKind{decl: "ID string `encrypt:\"subject-id\"`", fields: []genField{{"ID", "id", ""}}}
		case 1:
			s.ID, s.Subject = "ID", "UserID"
			id = fieldKind{decl: "ID string `json:\"id\"`\n\tUserID string `json:\"u\" encrypt:\"subject-id\"`", fields: []genField{{"ID", "id", ""}, {"UserID", "id", ""}}}
		case 2:
			s.ID = "ID"
			id = fieldKind{decl: "ID, Other string", fields: []genField{{"ID", "id", ""}, {"Other", "id", ""}}}
		case 3:
			s.ID, s.Subject = "Type", "E2"
			id = fieldKind{decl: "Type string\n\tE2, E3 string `encrypt:\"subject-id\"`", fields: []genField{{"Type", "id", ""}, {"E2", "id", ""}, {"E3", "id", ""}}}
		}
		seen := map[string]bool{}
		for _, k := range append([]fieldKind{id}, kinds...) {
			for _, f := range k.fields {
				if seen[f.Name] || (f.Name == "Second" && seen["First"]) || (f.Name == "First" && seen["Second"]) {
					return
				}
				seen[f.Name] = true
			}
		}
		all := append(append([]fieldKind{}, kinds...), id) // (the subject may be declared last)
		if n%2 == 0 {
			all = append([]fieldKind{id}, kinds...)
		}
		src := "struct {"
		for _, k := range all {
			src += "\n\t" + k.decl
			for _, f := range k.fields {
				if s.Subject == "" && f.Role == "personal" {
					return
				}
				s.Fields = append(s.Fields, f)
			}
		}
		if s.Subject == "" {
			for i := range s.Fields {
				if s.Fields[i].Role == "serialized" {
					return
				}
			}
		}
		s.src = src + "\n}\n"
		out = append(out, s)
	}
	n := 0
	for idMode := 0; idMode < 4; idMode++ {
		add(nil, idMode, n)
		n++
		for i, a := range fieldKinds {
			add([]fieldKind{a}, idMode, n)
			n++
			for j, b := range fieldKinds {
				if i == j || idMode > 0 && full == 0 && (i > 12 && j > 12) {
					continue
				}
				add([]fieldKind{a, b}, idMode, n)
				n++
				for k, c := range fieldKinds {
					if k != i && k != j && idMode < 2 && (i < 6 && j < 6 && k < 6 || full > 0 && (i+j+k)%full == 0) {
						add([]fieldKind{a, b, c}, idMode, n)
						n++
					}
				}
			}
		}
	}
	return out
}

// genSource writes the declarations of a file in one of several styles.
func genSource(style int, specs []genSpec) string {
	var b strings.Builder
	b.WriteString("package main\n\n")
	switch style % 4 {
	case 0:
		for _, s := range specs {
			b.WriteString("type " + s.Type + " " + s.src + "\n")
		}
	case 1:
		b.WriteString("// Events.\ntype (\n")
		for _, s := range specs {
			b.WriteString("\t// " + s.Type + " is an event.\n\t" + s.Type + " " + s.src + "\n")
		}
		b.WriteString(")\n")
	case 2:
		b.WriteString("import \"fmt\"\n\nvar _ = fmt.Sprint\n\ntype i" + specs[0].Type + " interface{ F() struct{ X int } }\n\nfunc f" + specs[0].Type + "() int {\n\ttype local struct{ Y int }\n\tx := local{1}\n\treturn x.Y\n}\n")
		for _, s := range specs {
			b.WriteString("type " + s.Type + " " + s.src + "\n")
		}
	case 3:
		b.WriteString("type n" + specs[0].Type + " int\n\ntype m" + specs[0].Type + " map[string]struct{ Name string }\n")
		for _, s := range specs {
			b.WriteString("/* " + s.Type + " */ type " + s.Type + " " + s.src + "\n")
		}
	}
	return b.String()
}

var compileErr = regexp.MustCompile(`(?m)^\./(f\d+)(_gen)?\.go:\d+:\d+: .*$`)

// runGenerated compiles and runs what was generated for the declarations.
func runGenerated(x *ctl.X, files map[string]string, specs []genSpec, sources map[string]string) {
	reg := "package main\n\nvar registry = map[string]func() interface{}{\n"
	for _, s := range specs {
		reg += fmt.Sprintf("\t%q: func() interface{} { return &%s{} },\n", s.Type, s.Type)
	}
	files["registry.go"] = reg + "}\n\ntype embedded struct{}\n"
	files["driver.go"] = genDriver
	js, _ := json.Marshal(specs)
	files["specs.json"] = string(js)
	dir := genDir(x, files)
	defer os.RemoveAll(dir)
	out, err := command(dir, nil, "go", "build", "-trimpath", "-gcflags=-e", "-o", "prog", ".")
	if err != nil {
		if m := compileErr.FindStringSubmatch(out); m != nil {
			x.FailSig("compile", "the generated code does not compile: %s\nfor:\n%s", m[0], sources[m[1]])
		} else {
			x.FailSig("build", "%v: %.2000s", err, out)
		}
		return
	}
	out, err = command(dir, nil, filepath.Join(dir, "prog"), "specs.json")
	lines := strings.Split(strings.TrimSpace(out), "\n")
	if err != nil || len(lines) != 1 || lines[0] != fmt.Sprintf("checked %d", len(specs)) {
		src := ""
		for _, s := range specs {
			if strings.HasPrefix(lines[0], s.Type+":") {
				src = s.src
			}
		}
		x.FailSig("behaviour", "%s (%v; %d lines) for type %s", lines[0], err, len(lines), src)
	}
	x.Count(len(specs))
}

// aggregate types that the generators are given
var genAggTypes = []string{"thing", "a-b.c", "quo\"te", "back\\slash", "été", "", "<&>", "{{.}}", "line\nfeed"}

func eventGenHarness() *explore.Harness {
	const batch = 400
	specs := declarations(explore.Tier(0, 7))
	batches := (len(specs) + batch - 1) / batch
	return &explore.Harness{Name: "events",
		Doc: fmt.Sprintf("%d event declarations: every pair of %d ways to declare fields (names that are keywords, names of the generated code, other letter cases or not ASCII; several names in one declaration; raw and quoted tags; serialized numbers), triples of the first 6, with the subject id in 4 ways, in files of 1 to 3 events in 4 styles; the generated code is compiled and run: aggregate id and type, event type, what is encrypted with which subject and restored, failing calls and deleted keys", len(specs), len(fieldKinds)),
		Body: func(x *ctl.X) {
			b := x.ChooseF(batches, 0, func(i int) string { return fmt.Sprintf("declarations from %d", i*batch) })
			hi := (b + 1) * batch
			if hi > len(specs) {
				hi = len(specs)
			}
			mine := append([]genSpec{}, specs[b*batch:hi]...)
			files, sources := map[string]string{}, map[string]string{}
			for i, f := 0, 0; i < len(mine); f++ {
				// one generated file has one id field and aggregate type
				n := 1
				for n < 1+f%3 && i+n < len(mine) && mine[i+n].ID == mine[i].ID {
					n++
				}
				agg := "thing"
				if f%5 == 0 {
					agg = genAggTypes[f/5%len(genAggTypes)]
				}
				for j := i; j < i+n; j++ {
					mine[j].Agg = agg
				}
				src := genSource(f, mine[i:i+n])
				name := fmt.Sprintf("f%d", f)
				events, err := eventparser.GetEvents(strings.NewReader(src))
				if err != nil {
					x.FailSig("parse", "%v for:\n%s", err, src)
					return
				}
				var out bytes.Buffer
				if err := eventparser.WriteEvents(&out, events, "main", mine[i].ID, agg); err != nil {
					x.FailSig("write", "%v for:\n%s", err, src)
					return
				}
				if len(events) != n {
					x.FailSig("parse", "%d events found in:\n%s", len(events), src)
					return
				}
				files[name+".go"], files[name+"_gen.go"], sources[name] = src, out.String(), src
				i += n
			}
			runGenerated(x, files, mine, sources)
			x.Observe("%d", b)
		}}
}

func commandGenHarness() *explore.Harness {
	return &explore.Harness{Name: "commands",
		Doc: "command declarations: files of 1 to 3 structs with every way to declare fields, in 4 styles, for every of 9 aggregate types and 2 names of the id; the generated code is compiled and run: aggregate id and type, command type",
		Body: func(x *ctl.X) {
			files, sources := map[string]string{}, map[string]string{}
			var all []genSpec
			f := 0
			for style := 0; style < 4; style++ {
				for _, agg := range genAggTypes {
					for _, id := range []string{"ID", "Type"} {
						n := 1 + f%3
						var specs []genSpec
						for i := 0; i < n; i++ {
							k := fieldKinds[(f*3+i)%len(fieldKinds)]
							s := genSpec{Type: fmt.Sprintf("Do%d_%d", f, i), ID: id, Agg: agg, Command: true, Fields: []genField{{id, "id", ""}}}
							if f%5 == 0 {
								s.Type = fmt.Sprintf("Été%d_%d", f, i)
							}
							s.src = fmt.Sprintf("struct {\n\t%s string\n", id)
							if k.fields[0].Name != id {
								s.src += "\t" + k.decl + "\n"
							}
							s.src += "}\n"
							specs = append(specs, s)
						}
						src := genSource(style, specs)
						names, err := structparser.GetStructNames(strings.NewReader(src))
						if err != nil || len(names) != n {
							x.FailSig("parse", "%v, %v for:\n%s", names, err, src)
							return
						}
						var out bytes.Buffer
						if err := commandgenerator.Write(&out, names, "main", id, agg); err != nil {
							x.FailSig("write", "%v for:\n%s", err, src)
							return
						}
						name := fmt.Sprintf("f%d", f)
						files[name+".go"], files[name+"_gen.go"], sources[name] = src, out.String(), src
						all = append(all, specs...)
						f++
					}
				}
			}
			runGenerated(x, files, all, sources)
			x.Observe("%d", len(all))
		}}
}

// genPackage is a package with commands, events and an aggregate, and a function that exercises what is generated for it.
func genPackage(pkg string, commands, events []string) map[string]string {
	files := map[string]string{}
	ev, more, last, cm := "package "+pkg+"\n", "package "+pkg+"\n", "package "+pkg+"\n", "package "+pkg+"\n"
	agg := "package " + pkg + "\n\nimport (\n\t\"fmt\"\n\t\"strings\"\n\n\t\"github.com/inklabs/rangedb\"\n\t\"github.com/inklabs/rangedb/pkg/cqrs\"\n\t\"github.com/inklabs/rangedb/provider/inmemorystore\"\n)\n\n" +
		"type thing struct {\n\tpendingEvents []rangedb.Event\n\tseen []string\n}\n\n"
	lc := func(n string) string {
		r := []rune(n)
		return strings.ToLower(string(r[0])) + string(r[1:])
	}
	raise, evs, ptrs := "", "", ""
	for i, e := range events {
		d := fmt.Sprintf("\ntype %s struct {\n\tID string\n\tN int\n}\n", e)
		if i == 2 {
			last += d
		} else if i%2 == 0 {
			ev += d
		} else {
			more += d
		}
		agg += fmt.Sprintf("func (a *thing) %s(e %s) { a.seen = append(a.seen, fmt.Sprint(\"%s \", e.N)) }\n", lc(e), e, e)
		raise += fmt.Sprintf("%s{c.ID, c.N + %d}, ", e, i)
		evs += fmt.Sprintf("%s{\"1\", %d}, ", e, i)
		ptrs += fmt.Sprintf("&%s{\"1\", %d}, ", e, i)
	}
	var cmds []string
	for _, c := range commands {
		cm += fmt.Sprintf("\ntype %s struct {\n\tID string\n\tN int\n}\n", c)
		agg += fmt.Sprintf("func (a *thing) %s(c %s) {\n\ta.seen = append(a.seen, fmt.Sprint(\"%s \", c.N))\n\ta.raise(%s)\n}\n", lc(c), c, c, raise)
		cmds = append(cmds, c+`{"1", 5}`, "&"+c+`{"1", 6}`)
	}
	bind := "BindEvents(store)"
	if len(events) == 0 {
		bind = "store.Bind()"
	}
	agg += fmt.Sprintf(`
func list(events []rangedb.Event) string {
	var l []string
	for _, e := range events {
		l = append(l, strings.TrimPrefix(fmt.Sprintf("%%T%%v", e, e), "*"))
	}
	return strings.ReplaceAll(strings.Join(l, " "), "&", "")
}

// Check returns the first thing that is wrong.
func Check() string {
	a := &thing{}
	events := []rangedb.Event{%s %s}
	records := make(chan rangedb.ResultRecord, len(events)+2)
	records <- rangedb.ResultRecord{Record: &rangedb.Record{Data: map[string]interface{}{"unknown": 1}}}
	for _, e := range events {
		records <- rangedb.ResultRecord{Record: &rangedb.Record{Data: e}}
	}
	close(records)
	a.Load(rangedb.NewRecordIterator(records))
	want := ""
	for i, e := range events {
		want += fmt.Sprint(" ", e.EventType(), " ", i%%(len(events)/2))
	}
	if got := " " + strings.Join(a.seen, " "); len(events) > 0 && got != want || len(events) == 0 && len(a.seen) > 0 {
		return fmt.Sprintf("loaded %%q, want %%q", got, want)
	}
	a.seen = nil
	store := inmemorystore.New()
	%s
	app := cqrs.New(store, cqrs.WithAggregates(a))
	var all []rangedb.Event
	commands := []cqrs.Command{%s}
	for i, c := range commands {
		n := 5 + i%%2
		a.seen = nil
		got := app.Dispatch(c)
		var raised []rangedb.Event
		for j, e := range events[:len(events)/2] {
			raised = append(raised, remake(e, n+j))
		}
		if list(got) != list(raised) {
			return fmt.Sprintf("%%T raised %%s, want %%s", c, list(got), list(raised))
		}
		want := ""
		for _, e := range all {
			want += fmt.Sprint(" ", e.EventType(), " ", number(e))
		}
		want += fmt.Sprint(" ", c.CommandType(), " ", n)
		if got := " " + strings.Join(a.seen, " "); got != want {
			return fmt.Sprintf("handling %%T: %%q, want %%q", c, got, want)
		}
		all = append(all, raised...)
	}
	types := strings.Join(a.CommandTypes(), " ")
	if types != %q {
		return "command types " + types
	}
	if e := a.Handle(nil); len(e) > 0 {
		return "unknown command raises events"
	}
	return ""
}
`, evs, ptrs, bind, strings.Join(cmds, ", "), strings.Join(commands, " "))
	agg += "\nfunc number(e rangedb.Event) int {\n\tswitch e := e.(type) {\n"
	for _, e := range events {
		agg += fmt.Sprintf("\tcase %s:\n\t\treturn e.N\n", e)
	}
	agg += "\tdefault:\n\t\t_ = e\n\t}\n\treturn -1\n}\n\nfunc remake(e rangedb.Event, n int) rangedb.Event {\n\tswitch e := e.(type) {\n"
	for _, e := range events {
		agg += fmt.Sprintf("\tcase %s:\n\t\te.N = n\n\t\treturn e\n", e)
	}
	agg += "\tdefault:\n\t\t_ = e\n\t}\n\treturn nil\n}\n"
	files[pkg+"/thing.go"] = agg
	if len(events) > 0 {
		files[pkg+"/thing_events.go"] = ev
	}
	if len(events) > 1 {
		files[pkg+"/more_events.go"] = more
	}
	if len(events) > 2 {
		files[pkg+"/last.events.go"] = last
	}
	if len(commands) > 0 {
		files[pkg+"/thing_commands.go"] = cm
	}
	return files
}

func genToolsHarness() *explore.Harness {
	return &explore.Harness{Name: "tools",
		Doc: "the four generator programs run as go generate does, for packages of 0 to 3 commands and 0 to 3 events in one or two files, with ASCII and other names: everything compiles; commands dispatched by value and by pointer reach their handler, what it raises is stored, and the next load applies it in order; values and pointers of every event are applied",
		Body: func(x *ctl.X) {
			names := x.ChooseF(3, 0, func(i int) string { return []string{"plain names", "other scripts", "names that begin alike"}[i] })
			cn := [][]string{{"DoThing", "StopThing", "Undo"}, {"Émettre", "Ändern", "Ψ"}, {"Do", "DoIt", "DoItNow"}}[names]
			en := [][]string{{"ThingWasDone", "ThingWasStopped", "Undone"}, {"Émis", "Geändert", "Ωmega"}, {"Was", "WasDone", "WasDoneNow"}}[names]
			files := map[string]string{}
			main := "package main\n\nimport (\n\t\"fmt\"\n"
			calls := ""
			for c := 0; c <= 3; c++ {
				for e := 0; e <= 3; e++ {
					if c+e == 0 {
						continue
					}
					pkg := fmt.Sprintf("p%d%d", c, e)
					for n, s := range genPackage(pkg, cn[:c], en[:e]) {
						files[n] = s
					}
					main += fmt.Sprintf("\t\"verifmc/%s\"\n", pkg)
					calls += fmt.Sprintf("\tif s := %s.Check(); s != \"\" {\n\t\tfmt.Println(%q, s)\n\t}\n", pkg, pkg)
				}
			}
			files["main.go"] = main + ")\n\nfunc main() {\n" + calls + "\tfmt.Println(\"done\")\n}\n"
			dir := genDir(x, files)
			defer os.RemoveAll(dir)
			_ = os.Mkdir(filepath.Join(dir, "bin"), 0o755)
			for _, t := range []string{"aggregategenerator", "commandgenerator", "eventbinder", "eventgenerator"} {
				if out, err := command(dir, nil, "go", "build", "-trimpath", "-o", filepath.Join(dir, "bin", t), "github.com/inklabs/rangedb/gen/"+t); err != nil {
					x.FailSig("build", "%v: %.2000s", err, out)
					return
				}
			}
			for c := 0; c <= 3; c++ {
				for e := 0; e <= 3; e++ {
					if c+e == 0 {
						continue
					}
					pkg := fmt.Sprintf("p%d%d", c, e)
					run := func(file string, args ...string) {
						args[0] = filepath.Join(dir, "bin", args[0])
						if out, err := command(filepath.Join(dir, pkg), []string{"GOPACKAGE=" + pkg, "GOFILE=" + file}, args...); err != nil {
							x.FailSig("generator", "%v: %v: %s", args, err, out)
						}
					}
					if e > 0 {
						run("thing_events.go", "eventgenerator", "-id", "ID", "-aggregateType", "thing")
						binds := "thing_events.go"
						if e > 1 {
							run("thing.go", "eventgenerator", "-id", "ID", "-aggregateType", "thing", "-inFile", "more_events.go", "-outFile", "more_gen.go")
							binds += ",more_events.go"
						}
						if e > 2 {
							run("./last.events.go", "eventgenerator", "-id", "ID", "-aggregateType", "thing")
							binds += ",./last.events.go"
						}
						run("thing.go", "eventbinder", "-files", binds)
					}
					if c > 0 {
						run("thing_commands.go", "commandgenerator", "-id", "ID", "-aggregateType", "thing")
					}
					switch {
					case e > 1: // (events of two files)
						all, _ := os.ReadFile(filepath.Join(dir, pkg, "thing_events.go"))
						more, _ := os.ReadFile(filepath.Join(dir, pkg, "more_events.go"))
						last, _ := os.ReadFile(filepath.Join(dir, pkg, "last.events.go"))
						for _, f := range [][]byte{more, last} {
							all = append(all, bytes.Replace(f, []byte("package "+pkg), nil, 1)...)
						}
						_ = os.WriteFile(filepath.Join(dir, "events.txt"), all, 0o644)
						args := []string{"aggregategenerator", "-name", "thing", "-events", "../events.txt"}
						if c > 0 {
							args = append(args, "-commands", "thing_commands.go")
						}
						run("thing.go", args...)
					case c == 0:
						run("thing.go", "aggregategenerator", "-name", "thing", "-events", "thing_events.go", "-out", "a_gen.go")
					case e == 0:
						run("thing.go", "aggregategenerator", "-name", "thing", "-commands", "thing_commands.go", "-package", pkg)
					default:
						run("thing.go", "aggregategenerator", "-name", "thing")
					}
				}
			}
			if x.Failed() {
				return
			}
			out, err := command(dir, nil, "go", "build", "-trimpath", "-gcflags=-e", "-o", "prog", ".")
			if err != nil {
				x.FailSig("compile", "%v: %.1500s", err, out)
				return
			}
			out, err = command(dir, nil, filepath.Join(dir, "prog"))
			if err != nil || out != "done\n" {
				x.FailSig("behaviour", "%v: %.1500s", err, out)
			}
			x.Count(15)
			x.Observe("%d", names)
		}}
}

func init() {
	explore.Register(&explore.Property{ID: "C30", Level: "model_checking", Rule: seqRule, Assumptions: append([]string{
		"personal data fields are strings, or ints with a string target",
	}, seqAssume...),
		Harnesses: []*explore.Harness{eventGenHarness(), commandGenHarness(), genToolsHarness()}})
}
