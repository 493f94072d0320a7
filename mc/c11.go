package main

import (
	"encoding/json"
	"fmt"
	"strings"

	readability "github.com/giulianopz/go-readability"
)

// C11: which JSON-LD is used, and what of it.

var c11Types = []string{"Article", "AdvertiserContentArticle", "NewsArticle", "AnalysisNewsArticle", "AskPublicNewsArticle", "BackgroundNewsArticle", "OpinionNewsArticle", "ReportageNewsArticle", "ReviewNewsArticle", "Report", "SatiricalArticle", "ScholarlyArticle", "MedicalScholarlyArticle", "SocialMediaPosting", "BlogPosting", "LiveBlogPosting", "DiscussionForumPosting", "TechArticle", "APIReference"}

type c11Val struct {
	js string
	ok bool
}

var c11Ctx = []c11Val{
	{`"https://schema.org"`, true}, {`"http://schema.org"`, true}, {`"https://schema.org/"`, true}, {`"http://schema.org/"`, true},
	{`"https://schema.org/Article"`, false}, {`"http://example.org"`, false}, {`"https://schema.org.example"`, false}, {`"schema.org"`, false}, {`"ftp://schema.org"`, false}, {`""`, false}, {`42`, false}, {`null`, false}, {`true`, false}, {`["x"]`, false}, {`{"a":1}`, false}, {`-`, false}, {`"xhttps://schema.org"`, false}, {`"https://schemaXorg"`, false},
}

var c11Typ = func() []c11Val {
	var out []c11Val
	for _, t := range c11Types {
		out = append(out, c11Val{`"` + t + `"`, true})
	}
	for _, s := range []string{`"Person"`, `"WebSite"`, `"Product"`, `"Event"`, `"Recipe"`, `"Thing"`, `""`, `42`, `null`, `false`, `[]`, `{}`, `{"name":"Article"}`, `-`, `"WebPage"`, `"Organization"`, `"BreadcrumbList"`, `"VideoObject"`} {
		out = append(out, c11Val{s, false})
	}
	return out
}()

// a field: its JSON and the expected value ("" for: as if it were not there)
type c11Field struct{ js, want string }

var c11Junk = []string{`0`, `3.5`, `-1e3`, `null`, `true`, `false`, `[]`, `{}`, `["a"]`, `[1]`, `[null]`, `{"x":"y"}`, `[[]]`, `[{}]`}

var c11Fields = func() map[string][]c11Field {
	m := map[string][]c11Field{}
	for _, k := range []string{"name", "headline", "description", "datePublished"} {
		m[k] = append(m[k], c11Field{"-", ""}, c11Field{`"The ` + k + ` value"`, "The " + k + " value"}, c11Field{`"  padded ` + k + ` "`, "padded " + k}, c11Field{`"esc \"` + k + `\" A &amp; B"`, `esc "` + k + `" A & B`}, c11Field{`"say &quot;` + k + `&quot;"`, `say "` + k + `"`})
		for _, j := range c11Junk {
			m[k] = append(m[k], c11Field{j, ""})
		}
		m[k] = append(m[k], c11Field{`{"name":"obj"}`, ""}, c11Field{`[{"name":"obj"}]`, ""})
	}
	m["author"] = []c11Field{{"-", ""}, {`{"name":"Ann Author"}`, "Ann Author"}, {`{"name":"  Ann  "}`, "Ann"}, {`{"@type":"Person","name":"Bob","url":5}`, "Bob"}, {`[{"name":"Ann"}]`, "Ann"}, {`[{"name":"Ann"},{"name":" Bob "}]`, "Ann, Bob"}, {`[{"name":"Ann"},{"name":"Bob"},{"name":"Cid"}]`, "Ann, Bob, Cid"}, {`[{"name":"Ann"},5,{"name":"Cid"}]`, "Ann, Cid"}, {`[{"name":"Ann"},{"name":7},{"x":1},null,"s",{"name":"Dan"}]`, "Ann, Dan"}, {`{"name":5}`, ""}, {`{"name":null}`, ""}, {`{"name":["x"]}`, ""}, {`"plain"`, ""}}
	for _, j := range c11Junk {
		m["author"] = append(m["author"], c11Field{j, ""})
	}
	m["publisher"] = []c11Field{{"-", ""}, {`{"name":"The Publisher"}`, "The Publisher"}, {`{"name":" Padded "}`, "Padded"}, {`{"logo":{},"name":"X &amp; Y"}`, "X & Y"}, {`{"name":5}`, ""}, {`{"name":null}`, ""}, {`{"name":{}}`, ""}, {`"plain"`, ""}, {`[{"name":"list"}]`, ""}}
	for _, j := range c11Junk {
		m["publisher"] = append(m["publisher"], c11Field{j, ""})
	}
	return m
}()

const c11Low = `<meta property="og:title" content="Low title"/><meta name="author" content="Low author"/><meta name="description" content="Low excerpt"/><meta property="og:site_name" content="Low site"/><meta property="article:published_time" content="Low time"/>`

var c11LowVals = map[string]string{"title": "Low title", "byline": "Low author", "excerpt": "Low excerpt", "site": "Low site", "time": "Low time"}

func c11Obj(fields ...string) string {
	var out []string
	for i := 0; i+1 < len(fields); i += 2 {
		if fields[i+1] != "-" {
			out = append(out, fmt.Sprintf("%q: %s", fields[i], fields[i+1]))
		}
	}
	return "{" + strings.Join(out, ", ") + "}"
}

const c11Attr = `type="application/ld+json"`

func c11Script(attr, content string) string { return "<script " + attr + ">" + content + "</script>" }

func c11Page(scripts, title, meta string, place int) string {
	head, body := "<title>"+title+"</title>"+meta, "<p>"+prose("fst", 300)+"</p>"
	switch place {
	case 0:
		head = scripts + head
	case 1:
		head += scripts
	case 2:
		body += scripts
	}
	body = "<div>" + body + "<p>" + prose("snd", 300) + "</p></div>"
	switch place {
	case 3:
		body = scripts + body
	case 4:
		body += scripts
	}
	return page(head, body)
}

// c11Judge compares the fields of the result with what the JSON-LD says, the
// meta tags filling the gaps.
func c11Judge(t *T, src string, js map[string]string, low map[string]string, opts ...readability.Option) {
	t.Begin("%s", src)
	res := t.MustParse(src, docURI, opts...)
	if res == nil {
		return
	}
	sig := ""
	for _, f := range c10Fields {
		want := js[f]
		if want == "" {
			want = low[f]
		}
		t.Trace()
		if got := c10Get(res, f); got != want {
			t.Fail("%s: got %q, want %q", f, got, want)
			return
		}
		sig += want + "|"
	}
	t.State(src)
	t.Outcome(sig)
}

func init() {
	register(&Prop{ID: "C11", Level: "model_checking",
		Rule: "every context x type x wrapping x place, every pair of fields x shapes, every graph of up to 3 elements, every sequence of up to 3 scripts, with JSON-LD on and off; non-trivial: a distinct page whose fields were all compared with the model",
		Families: func(tier string) []Family {
			var fs []Family
			wraps := []string{"X", " \n X \n ", "<![CDATA[X]]>", "\n<![CDATA[\nX\n]]>\n", "\tX"}
			full := []string{"name", `"Json title"`, "author", `{"name":"Json author"}`, "description", `"Json excerpt"`, "publisher", `{"name":"Json site"}`, "datePublished", `"Json time"`}
			fullVals := map[string]string{"title": "Json title", "byline": "Json author", "excerpt": "Json excerpt", "site": "Json site", "time": "Json time"}
			fs = append(fs, Family{Name: "context-type", N: size(len(c11Ctx), len(c11Typ), len(wraps), 5, 2), Run: func(t *T, i uint64) {
				d := &dec{i}
				c, ty, w, pl, off := pick(d, c11Ctx), pick(d, c11Typ), pick(d, wraps), d.n(5), d.b()
				o := c11Obj(append([]string{"@context", c.js, "@type", ty.js}, full...)...)
				src := c11Page(c11Script(c11Attr, strings.Replace(w, "X", o, 1)), c10Title, c11Low, pl)
				js := map[string]string{}
				if c.ok && ty.ok && !off {
					js = fullVals
				}
				c11Judge(t, src, js, c11LowVals, readability.DisableJSONLD(off))
			}})
			// pairs of fields x shapes
			keys := []string{"name", "headline", "author", "description", "publisher", "datePublished"}
			type pr struct{ a, b string }
			var prs []pr
			for x, a := range keys {
				for _, b := range keys[x+1:] {
					prs = append(prs, pr{a, b})
				}
			}
			for _, p := range prs {
				p := p
				fa, fb := c11Fields[p.a], c11Fields[p.b]
				fs = append(fs, Family{Name: "fields-" + p.a + "-" + p.b, N: size(len(fa), len(fb), 2), Run: func(t *T, i uint64) {
					d := &dec{i}
					a, b := pick(d, fa), pick(d, fb)
					gr := d.b()
					o := c11Obj("@context", `"https://schema.org"`, "@type", `"NewsArticle"`, p.a, a.js, p.b, b.js)
					if gr {
						o = c11Obj("@context", `"https://schema.org"`, "@graph", "["+c11Obj("@type", `"NewsArticle"`, p.a, a.js, p.b, b.js)+"]")
					}
					var chk any
					if json.Unmarshal([]byte(o), &chk) != nil {
						t.Fail("bad case: %s", o)
						return
					}
					js := map[string]string{}
					for _, kv := range []struct{ k, v string }{{p.a, a.want}, {p.b, b.want}} {
						switch kv.k {
						case "name", "headline":
							if js["title"] == "" { // unrelated to the title of the page: the name wins
								js["title"] = kv.v
							}
						case "author":
							js["byline"] = kv.v
						case "description":
							js["excerpt"] = kv.v
						case "publisher":
							js["site"] = kv.v
						case "datePublished":
							js["time"] = kv.v
						}
					}
					c11Judge(t, c11Page(c11Script(c11Attr, o), c10Title, c11Low, 1), js, c11LowVals)
				}})
			}
			// name and headline against the title of the page
			ts := []string{"Some wonderful article about growing green tomatoes", "My Site", "Completely unrelated words standing here today", "Some Wonderful Article About Growing Green Tomatoes!"}
			fs = append(fs, Family{Name: "name-headline", N: size(len(ts), len(ts), len(ts), 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				title, name, head, pl := pick(d, ts), pick(d, ts), pick(d, ts), d.n(3)
				if title == "My Site" {
					return // too short to be compared with
				}
				close := func(a string) bool {
					return strings.EqualFold(strings.TrimSuffix(a, "!"), strings.TrimSuffix(title, "!"))
				}
				want := name
				if close(head) && !close(name) {
					want = head
				}
				q := func(s string) string { b, _ := json.Marshal(" " + s + " "); return string(b) }
				o := c11Obj("@context", `"https://schema.org"`, "@type", `"Article"`, "name", q(name), "headline", q(head))
				c11Judge(t, c11Page(c11Script(c11Attr, o), title, c11Low, pl), map[string]string{"title": want}, c11LowVals)
			}})
			// graphs
			els := []struct {
				js    string
				title string
			}{
				{c11Obj("@type", `"Article"`, "name", `"Graph one"`), "Graph one"},
				{c11Obj("@type", `"BlogPosting"`, "headline", `"Graph two"`, "author", `{"name":"G"}`), "Graph two"},
				{c11Obj("@type", `"WebSite"`, "name", `"No site"`), ""},
				{c11Obj("@type", `"Person"`, "name", `"No person"`, "description", `"No"`), ""},
				{c11Obj("name", `"No type"`), ""}, {c11Obj("@type", `5`, "name", `"No five"`), ""}, {`5`, ""}, {`"Article"`, ""}, {`null`, ""}, {`[]`, ""}, {`{}`, ""}, {c11Obj("@type", `null`, "name", `"No null"`), ""},
			}
			// what the object around the graph says of itself
			tops := []string{"", `"@type":"WebSite","name":"No top",`, `"@type":"Article","name":"Top",`, `"@type":5,`, `"@type":null,"description":"No",`}
			fs = append(fs, Family{Name: "graphs", N: seqCount(len(els), 0, 3) * size(4, len(tops)), Run: func(t *T, i uint64) {
				d := &dec{i}
				top := pick(d, tops)
				c := []c11Val{c11Ctx[0], c11Ctx[3], c11Ctx[5], c11Ctx[15]}[d.n(4)]
				var g []string
				js := map[string]string{}
				for _, k := range seqAt(d.i, len(els), 0, 3) {
					g = append(g, els[k].js)
					if els[k].title != "" && js["title"] == "" && c.ok {
						js["title"] = els[k].title
						if k == 1 {
							js["byline"] = "G"
						}
					}
				}
				o := "{" + top + c11Obj("@context", c.js, "@graph", "["+strings.Join(g, ",")+"]")[1:]
				if strings.Contains(top, "Top") {
					if js["title"] != "" {
						return // two articles in one script: either will do
					}
					if c.ok {
						js["title"] = "Top"
					}
				}
				c11Judge(t, c11Page(c11Script(c11Attr, o), c10Title, c11Low, 1), js, c11LowVals)
			}})
			// lists of authors
			aus := []struct{ js, name string }{{`{"name":"Zoe Zed"}`, "Zoe Zed"}, {`{"@type":"Person","name":" Amy Abe "}`, "Amy Abe"}, {`{"name":"b. bob"}`, "b. bob"}, {`{"name":5}`, ""}, {`"Str Ing"`, ""}, {`{}`, ""}, {`null`, ""}, {`{"name":["x"]}`, ""}, {`[{"name":"nested"}]`, ""}, {`{"name":"Zoe, Zed"}`, "Zoe, Zed"}}
			fs = append(fs, Family{Name: "authors", N: seqCount(len(aus), 0, 4), Run: func(t *T, i uint64) {
				var l, names []string
				for n, k := range seqAt(i, len(aus), 0, 4) {
					if l = append(l, aus[k].js); aus[k].name != "" && (n == 0 || len(names) > 0) {
						names = append(names, aus[k].name)
					}
				}
				js := map[string]string{"byline": strings.Join(names, ", ")}
				o := c11Obj("@context", `"https://schema.org"`, "@type", `"Article"`, "author", "["+strings.Join(l, ",")+"]")
				c11Judge(t, c11Page(c11Script(c11Attr, o), c10Title, c11Low, 1), js, c11LowVals)
			}})
			// how close the headline and the name are to the title of the page
			words := strings.Fields("zephyr yellow xylem window violet umber tundra silver")
			fs = append(fs, Family{Name: "closeness", N: size(5, 9, 9, 3, 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				n, a, b, xa, xb := d.n(5)+4, d.n(9), d.n(9), d.n(3), d.n(3)
				if a > n || b > n {
					return
				}
				title := strings.Join(words[:n], " ")
				mk := func(k, x int, f string) string {
					return strings.TrimSpace(strings.Join(words[:k], " ") + strings.Repeat(" "+f+"extra", x+1))
				}
				name, head := mk(a, xa, "nam"), mk(b, xb, "hed")
				want := name
				if rSimilar(head, title) > 0.75 && rSimilar(name, title) <= 0.75 {
					want = head
				}
				o := c11Obj("@context", `"https://schema.org"`, "@type", `"Article"`, "name", `"`+name+`"`, "headline", `"`+head+`"`)
				c11Judge(t, c11Page(c11Script(c11Attr, o), title, c11Low, 1), map[string]string{"title": want}, c11LowVals)
			}})
			// sequences of scripts
			ctx := `"https://schema.org"`
			scr := []struct {
				m    string
				vals map[string]string
			}{
				{c11Script(c11Attr, c11Obj("@context", ctx, "@type", `"Article"`, "name", `"First kind"`)), map[string]string{"title": "First kind"}},
				{c11Script(c11Attr, c11Obj("@context", ctx, "@type", `"NewsArticle"`, "author", `{"name":"Second"}`, "datePublished", `"2020"`)), map[string]string{"byline": "Second", "time": "2020"}},
				{c11Script(c11Attr, c11Obj("@context", ctx, "@type", `"Report"`)), map[string]string{}},
				{c11Script(c11Attr, c11Obj("@context", ctx, "@type", `"WebSite"`, "name", `"Bad"`)), nil},
				{c11Script(c11Attr, c11Obj("@context", `"http://other.example"`, "@type", `"Article"`, "name", `"Bad"`)), nil},
				{c11Script(`type="text/javascript"`, c11Obj("@context", ctx, "@type", `"Article"`, "name", `"Bad"`)), nil},
				{c11Script(`type="application/json"`, c11Obj("@context", ctx, "@type", `"Article"`, "name", `"Bad"`)), nil},
				{c11Script(``, c11Obj("@context", ctx, "@type", `"Article"`, "name", `"Bad"`)), nil},
				{c11Script(c11Attr, `{"@context": "https://schema.org", "@type": "Article", "name": "Bad"`), nil},
				{c11Script(c11Attr, `{"@context": "https://schema.org", "@type": "Article", "name": "Bad"} x`), nil},
				{c11Script(c11Attr, ``), nil}, {c11Script(c11Attr, `[]`), nil}, {c11Script(c11Attr, `"Article"`), nil}, {c11Script(c11Attr, `null`), nil},
				{c11Script(`id="x" `+c11Attr+` async=""`, " "+c11Obj("@context", ctx, "@type", `"Article"`, "description", `"Third <b>kind</b>"`)), map[string]string{"excerpt": "Third <b>kind</b>"}},
				{`<script>if (a<b) x();</script>`, nil},
				{`<noscript>x</noscript>`, nil},
			}
			fs = append(fs, Family{Name: "scripts", N: seqCount(len(scr), 1, 3) * 10, Run: func(t *T, i uint64) {
				d := &dec{i}
				pl, off := d.n(5), d.b()
				var b strings.Builder
				var js map[string]string
				for _, k := range seqAt(d.i, len(scr), 1, 3) {
					b.WriteString(scr[k].m)
					if js == nil && !off {
						js = scr[k].vals
					}
				}
				c11Judge(t, c11Page(b.String(), c10Title, c11Low, pl), js, c11LowVals, readability.DisableJSONLD(off))
			}})
			// the type of the script, to the letter
			atts := []string{"application/ld+json5", "application/ld+jsonx", "application/ld+json;charset=utf-8", "xapplication/ld+json", "application/ld json", "application/ld", "ld+json", "application/json+ld", "application/ldXjson", "text/ld+json", "application/ld+jso", "application/x-ld+json", "application/ld+json/", "application/vnd.ld+json", "application/ld+jsonld", "module", "importmap", "application/json", "text/plain", "text/html", "application/ecmascript", "speculationrules", "application/schema+json"}
			vals := []struct{ js, want string }{
				{`"a ]]> b"`, "a ]]> b"}, {`"a <![CDATA[ b"`, "a <![CDATA[ b"}, {`"<![CDATA[x]]>"`, "<![CDATA[x]]>"}, {`"x]]>"`, "x]]>"}, {`"// <![CDATA["`, "// <![CDATA["}, {`"a /* b */ c"`, "a /* b */ c"}, {`"a // b"`, "a // b"}, {`"<!-- a -->"`, "<!-- a -->"}, {`"a\u00e9b"`, "aéb"}, {`"a\tb"`, "a\tb"}, {`"tab\\n"`, "tab\\n"}, {`"\ud83d\ude00 x"`, "😀 x"}, {`"é 😀"`, "é 😀"}, {`"a <b> c"`, "a <b> c"}, {`"{\"x\": [1]}"`, `{"x": [1]}`}, {`"<\/p>"`, "</p>"}, {`"a, b; c: d"`, "a, b; c: d"}, {`"https://schema.org"`, "https://schema.org"}, {`"@graph"`, "@graph"}, {`"Article"`, "Article"},
			}
			fs = append(fs, Family{Name: "script-types", N: size(len(atts), len(wraps), 5, 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				a, w, pl, q := pick(d, atts), pick(d, wraps), d.n(5), d.n(3)
				o := strings.Replace(w, "X", c11Obj(append([]string{"@context", ctx, "@type", `"Article"`}, full...)...), 1)
				m := c11Script(`type="`+a+`"`, o)
				js := map[string]string{}
				switch q {
				case 1:
					m += scr[0].m
					js = scr[0].vals
				case 2:
					m = scr[1].m + m
					js = scr[1].vals
				}
				c11Judge(t, c11Page(m, c10Title, c11Low, pl), js, c11LowVals)
			}})
			fs = append(fs, Family{Name: "values", N: size(len(vals), len(vals), len(wraps), 4), Run: func(t *T, i uint64) {
				d := &dec{i}
				v, v2, w, f := pick(d, vals), pick(d, vals), pick(d, wraps), d.n(4)
				var fields []string
				js := map[string]string{}
				set := func(f int, v, want string) {
					k := [][2]string{{"name", "title"}, {"description", "excerpt"}, {"author", "byline"}, {"publisher", "site"}}[f%4]
					if f%4 >= 2 {
						v = `{"name":` + v + `}`
					}
					fields = append(fields, k[0], v)
					js[k[1]] = want
				}
				set(f, v.js, v.want)
				set(f+1, v2.js, v2.want)
				if strings.Contains(w, "CDATA") && strings.Contains(v.js+v2.js, "]]>") {
					return // a CDATA section ends there
				}
				o := strings.Replace(w, "X", c11Obj(append([]string{"@context", ctx, "@type", `"Article"`}, fields...)...), 1)
				c11Judge(t, c11Page(c11Script(c11Attr, o), c10Title, c11Low, 1), js, c11LowVals)
			}})
			// without the fallback of meta tags, and off: as if there were no script
			fs = append(fs, Family{Name: "off", N: size(len(scr), len(scr), 5, 2), Run: func(t *T, i uint64) {
				d := &dec{i}
				a, b, pl, low := pick(d, scr), pick(d, scr), d.n(5), ""
				if d.b() {
					low = c11Low
				}
				src := c11Page(a.m+b.m, c10Title, low, pl)
				t.Begin("%s", src)
				with := t.MustParse(src, docURI, readability.DisableJSONLD(true))
				none := t.MustParse(c11Page("", c10Title, low, pl), docURI)
				if with == nil || none == nil {
					return
				}
				if fmt.Sprintf("%+v", *with) != fmt.Sprintf("%+v", *none) {
					t.Fail("JSON-LD is disabled, but the result differs from that of the page without: %+v vs %+v", *with, *none)
				}
				t.State(src)
			}})
			return fs
		},
		Assume: []string{"objects and lists as context, lists as type, a typed root with a graph, and an author list whose first entry has no name are outside of the space: what to do with them is not stated"},
	})
}
