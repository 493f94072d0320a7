package main

import (
	"fmt"
	"regexp"
	"runtime"
	"strings"
	"syscall"
	"time"

	readability "github.com/giulianopz/go-readability"
	"golang.org/x/net/html"
)

// C01: New, Parse (also repeated on the same instance) and IsProbablyReaderable
// return, whatever the input and the options are.

var longText = prose("long", 560)

func total(t *T, src, uri string, opts ...readability.Option) {
	t.Trans++
	r, err := readability.New(src, uri, opts...)
	if err == nil {
		for k := 0; k < 2; k++ {
			t.Trans++
			res, perr := r.Parse()
			if k == 0 && perr == nil {
				t.Outcome(fmt.Sprint(len(res.TextContent), len(res.HTMLContent)))
				t.State(src, uri)
			} else if k == 0 {
				t.Outcome(perr.Error())
			}
		}
	} else {
		t.Outcome(err.Error())
	}
	t.Trans++
	if readability.IsProbablyReaderable(src, opts...) {
		t.Outcome("readerable")
	}
}

var c01Tokens = []string{
	"<div>", "</div>", "<p>", "</p>", "short text", longText, "<br/>", "<body>", "</body>", "<html>", "</html>",
	"<a href=\"x\">", "</a>", "<table>", "<tr>", "<td>", "</table>", "<img src=\"a.jpg\"/>", "<h1>", "</h1>",
	"<noscript>", "</noscript>", "<script>", "</script>", "<![CDATA[]]>", "<!-- c -->", "<", "<ul>", "<li>",
	"<span>", "<svg>", "<title>", "<head>", "<textarea>", "<br>", "<section hidden=\"\">", "<style>", "<div style=\"display\">",
}

var c01Tags = []string{
	"div", "p", "a", "img", "span", "table", "td", "ul", "li", "h1", "h2", "section", "article", "figure", "picture", "video", "audio",
	"source", "iframe", "object", "embed", "form", "input", "select", "br", "hr", "pre", "code", "svg", "font", "noscript", "script",
	"style", "link", "meta", "base", "title", "header", "footer", "aside", "button", "blockquote", "html", "body", "head", "textarea", "x:y", "template",
}

var c01Attrs = []string{
	"class", "id", "style", "hidden", "aria-hidden", "aria-modal", "role", "href", "src", "srcset", "poster", "alt", "data-src", "data-srcset",
	"rel", "itemprop", "type", "name", "property", "content", "lang", "dir", "rowspan", "colspan", "summary", "datatable", "width", "align", "xlink:href", "a\"b",
}

var c01Values = []string{
	"", " ", "x", "#", "#x", "?", "%", "%zz", ":", "://", "http://", "http://[::1", "javascript:", "JavaScript:alert(1)", " javascript:x", "mailto:", "data:", "data:image/png;base64,", "DATA:image/png;BASE64,AA",
	"data:image/svg+xml;base64,AA", ",", ", ", "a.jpg 1x", "a.jpg 1x, b.jpg 2x", " 2x", "x,%20y", ",%20", "a.jpg", "display", "display:", ":none", ";", "display:none", "display:none:x", "visibility:hidden;;", "-1", "99999999999999999999", "1e9", "true", "dialog",
	"presentation", "0", "comment", "byline", "author", "hid", "share", "application/ld+json", "og:title", "dc.title", "//youtube.com/x", "\x00", "\xff\xfe", "é—漢", "lazy", "fallback-image", "<b>", "&", "&#", "&#x;", "&#xFFFFFFFFF;", "&amp;lt;", "\n\t",
}

var c01URIs = []string{docURI, "", ":", "http://[::1", "%zz", "/rel", "mailto:x@y", "http://h/%zz"}

var c01JSON = []string{
	`null`, `true`, `0`, `1e999`, `""`, `" "`, `"x"`, `"Article"`, `"http://schema.org"`, `[]`, `{}`, `[null]`, `[""]`, `["Article"]`, `[{}]`, `[[]]`, `{"name":null}`, `{"name":"n"}`, `{"name":["n"]}`, `{"name":1}`, `[{"name":"n"}]`, `[{"name":"n"},null]`, `[{"name":"n"},1,{"name":2}]`, `[null,{"name":"n"}]`, `{"@type":"Article"}`, `[{"@type":"Article"}]`, `[{"@type":null}]`, `[{"@type":["Article"]}]`,
}
var c01JSONKeys = []string{"@context", "@type", "@graph", "name", "headline", "author", "description", "publisher", "datePublished"}

var c01Bases = []string{
	page(`<title>A title | of the page</title><meta property="og:title" content="x"/>`, `<div class="main"><p>`+prose("a", 120)+`</p><p>b &amp; c &#60;</p><a href="javascript:void(0)">j</a><img data-src="a.jpg"/></div>`),
	page(``, `<table><tr><td><p style="display:none">h</p>`+prose("t", 60)+`</td></tr></table><br/><br/>x<ul><li>i</li></ul>`),
	page(`<script type="application/ld+json">{"@context":"http://schema.org","@type":"Article","author":[{"name":"n"}]}</script>`, `<p>x<![CDATA[y]]></p><noscript><img src="q.png"/></noscript><svg><g/></svg>`),
	`<!DOCTYPE html><html lang="en"><body dir="ltr"><h1>t</h1><figure><img srcset="a.jpg 1x, b.jpg 2x"/></figure><iframe src="//youtube.com/e"></iframe><font>f</font></body></html>`,
}

var c01Bytes = []string{"<", ">", "&", "\"", "'", "/", "=", " ", "\x00", "]", "!", "-", ";", "#"}

func init() {
	register(&Prop{ID: "C01", Level: "exploration",
		Rule: "every document, attribute, option, JSON value, edit, nesting and large repetition of the bounded spaces is given to New, Parse (twice) and IsProbablyReaderable in a watched process; non-trivial: the input got past New and Parse returned a result",
		Families: func(tier string) []Family {
			deep := tier == "thorough"
			var fs []Family
			nt := len(c01Tokens)
			l := 3
			if deep {
				l = 4
			}
			fs = append(fs, Family{Name: "tokens-in-body", N: seqCount(nt, 0, l), Run: func(t *T, i uint64) {
				var b strings.Builder
				b.WriteString("<html><body>")
				for _, k := range seqAt(i, nt, 0, l) {
					b.WriteString(c01Tokens[k])
				}
				if i%2 == 0 {
					b.WriteString("</body></html>")
				}
				t.Begin("%s", b.String())
				total(t, b.String(), docURI)
			}})
			fs = append(fs, Family{Name: "tokens-raw", N: seqCount(nt, 0, 3), Run: func(t *T, i uint64) {
				var b strings.Builder
				for _, k := range seqAt(i, nt, 0, 3) {
					b.WriteString(c01Tokens[k])
				}
				t.Begin("%s", b.String())
				total(t, b.String(), docURI)
			}})
			// every attribute of every element with every value, in an article and on its own
			vals := append(append([]string{}, c01Values...), mined().strs...)
			tags, attrs := c01Tags, c01Attrs
			fs = append(fs, Family{Name: "attributes", N: size(len(tags), len(attrs), len(c01Values), 2), Run: func(t *T, i uint64) {
				d := &dec{i}
				long := d.b()
				v, a, g := pick(d, c01Values), pick(d, attrs), pick(d, tags)
				attrCase(t, g, a, v, long)
			}})
			fs = append(fs, Family{Name: "attributes-mined", N: size(8, len(attrs), len(vals)), Run: func(t *T, i uint64) {
				d := &dec{i}
				v, a := pick(d, vals), pick(d, attrs)
				g := []string{"div", "a", "img", "p", "table", "section", "iframe", "meta"}[d.n(8)]
				attrCase(t, g, a, v, true)
			}})
			names := minedNames()
			fs = append(fs, Family{Name: "names-mined", N: size(len(names), 6), Run: func(t *T, i uint64) {
				d := &dec{i}
				k := d.n(6)
				n := pick(d, names)
				var s string
				switch k {
				case 0:
					s = page("", "<"+n+">"+longText+"</"+n+">")
				case 1:
					s = page("", "<div><p>"+longText+"</p><"+n+"></"+n+"><"+n+"/></div>")
				case 2:
					s = page("<"+n+" "+n+"=\""+n+"\">x</"+n+">", "<p>"+longText+"</p>")
				case 3:
					s = page("", "<"+n+"><"+n+"><p>"+longText+"</p></"+n+"></"+n+">")
				case 4:
					s = page("", "<div "+n+"><p "+n+"=\"\">"+longText+"</p></div>")
				case 5:
					s = "<" + n + "><body><p>" + n + "</p></body></" + n + ">"
				}
				t.Begin("%s", s)
				total(t, s, docURI)
			}})
			// pairs of attributes on the elements with special treatment
			pt := []string{"img", "a", "div", "table", "figure", "iframe"}
			pa := []string{"src", "srcset", "class", "style", "data-src", "href", "role", "hidden"}
			pv := []string{"", " ", "x", "a.jpg", "a.jpg 1x", "data:image/png;base64,AA", "lazy", "display:none", "%zz", "#", ",", "comment"}
			fs = append(fs, Family{Name: "attribute-pairs", N: size(len(pt), len(pa), len(pa), len(pv), len(pv)), Run: func(t *T, i uint64) {
				d := &dec{i}
				v2, v1, a2, a1, g := pick(d, pv), pick(d, pv), pick(d, pa), pick(d, pa), pick(d, pt)
				s := page("", "<div><p>"+longText+"</p><"+g+" "+a1+"=\""+v1+"\" "+a2+"=\""+v2+"\">x</"+g+"></div>")
				t.Begin("%s", s)
				total(t, s, docURI)
			}})
			// images and media: every value beside every other address
			it := []string{"img", "picture", "figure", "source", "video", "iframe"}
			ia := []string{"src", "srcset", "data-src", "poster", "class", "alt"}
			iv := append(append([]string{}, c01Values...), "data:image/gif;Base64,AA", "data:;base64,", "data:image/png; base64 ,A", "data: image/png ; BASE64 ,A", "data:image/png;base64", "data:base64,x", "a.jpg 1x,", ",a.jpg", "a.jpg  2w ,, b.png", "null", ".jpg", " .png 1", "1x", "base64,")
			i2 := []string{"a.jpg", "a.jpg 1x", "x"}
			fs = append(fs, Family{Name: "images", N: size(len(it), len(ia), len(iv), len(i2), 4), Run: func(t *T, i uint64) {
				d := &dec{i}
				g, a, v, w, k := pick(d, it), pick(d, ia), pick(d, iv), pick(d, i2), d.n(4)
				el := "<" + g + " " + a + "=\"" + strings.ReplaceAll(v, "\"", "&quot;") + "\" data-x=\"" + w + "\"></" + g + ">"
				switch k {
				case 1:
					el = "<noscript>" + el + "</noscript>"
				case 2:
					el = "<img src=\"p.png\"/><noscript>" + el + "</noscript>"
				case 3:
					el = el + "<noscript><img src=\"n.png\"/></noscript>"
				}
				s := page("", "<div><p>"+longText+"</p>"+el+"</div>")
				t.Begin("%s", s)
				total(t, s, docURI)
			}})
			// every ordered forest of up to 4 elements
			type forest struct {
				nodes int
				tags  []string
			}
			all := []string{"noscript", "picture", "img", "figure", "div", "p", "a", "table", "tr", "td", "br", "ul", "li", "span", "svg", "section", "h1", "form", "font", "script", "object", "iframe", "code", "tbody", "template"}
			few := []string{"noscript", "picture", "img", "div", "p", "a", "table", "td", "br", "section"}
			if deep {
				few = all[:14]
			}
			for _, f := range []forest{{1, all}, {2, all}, {3, all}, {4, few}} {
				shapes := forests(f.nodes)
				dims := []int{len(shapes), 3}
				for k := 0; k < f.nodes; k++ {
					dims = append(dims, len(f.tags))
				}
				fs = append(fs, Family{Name: fmt.Sprintf("trees-%d", f.nodes), N: size(dims...), Run: func(t *T, i uint64) {
					d := &dec{i}
					shape, v := pick(d, shapes), d.n(3)
					var b strings.Builder
					var open []string
					for _, c := range shape {
						if c == ')' {
							b.WriteString("</" + open[len(open)-1] + ">")
							open = open[:len(open)-1]
							continue
						}
						g := pick(d, f.tags)
						open = append(open, g)
						switch {
						case g == "a" && v == 0:
							b.WriteString("<a href=\"javascript:x\">")
						case (g == "img" || g == "iframe") && v > 0:
							b.WriteString("<" + g + " src=\"a.png\">")
						default:
							b.WriteString("<" + g + ">")
						}
						if v == 2 {
							b.WriteString("t")
						}
					}
					s := page("", "<div><p>"+longText+"</p>"+b.String()+"</div>")
					if v == 1 {
						s = page("", b.String())
					}
					t.Begin("%s", s)
					total(t, s, docURI)
				}})
			}
			// every element in every element, empty or not
			every := []string{"a", "abbr", "address", "area", "article", "aside", "audio", "b", "base", "blockquote", "body", "br", "button", "canvas", "caption", "center", "cite", "code", "col", "colgroup", "dd", "del", "details", "dialog", "div", "dl", "dt", "em", "embed", "fieldset", "figcaption", "figure", "font", "footer", "form", "h1", "h2", "h3", "h6", "head", "header", "hr", "html", "i", "iframe", "img", "input", "ins", "label", "li", "link", "main", "map", "math", "menu", "meta", "nav", "noscript", "object", "ol", "option", "p", "param", "picture", "pre", "q", "s", "script", "section", "select", "small", "source", "span", "strong", "style", "summary", "sup", "svg", "table", "tbody", "td", "template", "textarea", "tfoot", "th", "thead", "time", "title", "tr", "track", "u", "ul", "video", "wbr"}
			fs = append(fs, Family{Name: "nested-elements", N: size(len(every), len(every), 4), Run: func(t *T, i uint64) {
				d := &dec{i}
				k, in, out := d.n(4), pick(d, every), pick(d, every)
				el := "<" + in + "></" + in + ">"
				switch k {
				case 1:
					el = "<" + in + ">text</" + in + ">" + el
				case 2:
					el = "text " + el + " text"
				case 3:
					el = "<" + in + "><p>" + longText + "</p></" + in + ">"
				}
				s := page("", "<div><p>"+longText+"</p><"+out+">"+el+"</"+out+"></div>")
				t.Begin("%s", s)
				total(t, s, docURI)
			}})
			// tables: what may stand in them, in any order, and spans of any size
			tparts := []string{"<caption></caption>", "<caption>c</caption>", "<caption><b></b></caption>", "<colgroup></colgroup>", "<col/>", "<thead></thead>", "<tfoot><tr></tr></tfoot>", "<tr></tr>", "<tr><td></td></tr>", "<tr><td>x</td><td>y</td></tr>", "<tr><th></th></tr>", "<td></td>", "<th>z</th>", "<tbody></tbody>", "<tbody><tr><td><p></p></td></tr></tbody>", "<table></table>", "text", "<!-- c -->", "<tr><td><table><caption></caption></table></td></tr>"}
			tw := []string{"<table>", `<table summary="">`, `<table role="presentation">`}
			fs = append(fs, Family{Name: "table-parts", N: size(len(tw)) * seqCount(len(tparts), 0, 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				w := pick(d, tw)
				for _, k := range seqAt(d.i, len(tparts), 0, 3) {
					w += tparts[k]
				}
				s := page("", "<div><p>"+longText+"</p>"+w+"</table></div>")
				t.Begin("%s", s)
				total(t, s, docURI)
			}})
			nums := append(append([]string{}, c01Values...), "9223372036854775807", "-9223372036854775808", "99999999999999999999", "2000000000", "1000000000", "4611686018427387904", "1e9", "0x7fffffff", "3.5", "+5")
			ncells := []string{"table", "caption", "colgroup", "col", "thead", "tbody", "tr", "th", "td"}
			fs = append(fs, Family{Name: "table-attributes", N: size(len(ncells), len(attrs), len(nums), 2), Run: func(t *T, i uint64) {
				d := &dec{i}
				g, a, v, k := pick(d, ncells), pick(d, attrs), pick(d, nums), d.n(2)
				x := "<table><caption>c</caption><colgroup><col></col></colgroup><thead><tr><th>h</th></tr></thead><tbody><tr><td>a</td><td>b</td></tr></tbody></table>"
				if k == 1 {
					x = "<table><tr><td>a</td><td>b</td></tr></table>"
				}
				x = strings.ReplaceAll(x, "<"+g+">", "<"+g+" "+a+"=\""+strings.ReplaceAll(v, "\"", "&quot;")+"\">")
				s := page("", "<div><p>"+longText+"</p>"+x+"</div>")
				t.Begin("%s", s)
				total(t, s, docURI)
			}})
			fs = append(fs, Family{Name: "uris", N: size(len(c01URIs), len(c01Values), len(c01Values), 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				k := d.n(3)
				v, base, uri := pick(d, c01Values), pick(d, c01Values), pick(d, c01URIs)
				el := [](func(string) string){
					func(v string) string { return "<a href=\"" + v + "\">x</a>" },
					func(v string) string { return "<img srcset=\"" + v + "\"/>" },
					func(v string) string { return "<video poster=\"" + v + "\" src=\"" + v + "\"></video>" },
				}[k](v)
				s := page("<base href=\""+base+"\"/>", "<p>"+longText+el+"</p>")
				t.Begin("uri=%q %s", uri, s)
				total(t, s, uri)
			}})
			nj, nk := len(c01JSON), len(c01JSONKeys)
			fs = append(fs, Family{Name: "json-ld", N: size(nk, nj, nk, nj), Run: func(t *T, i uint64) {
				d := &dec{i}
				v2, k2, v1, k1 := pick(d, c01JSON), pick(d, c01JSONKeys), pick(d, c01JSON), pick(d, c01JSONKeys)
				m := map[string]string{"@context": `"https://schema.org"`, "@type": `"NewsArticle"`}
				m[k1] = v1
				m[k2] = v2
				var parts []string
				for _, k := range c01JSONKeys {
					if v, ok := m[k]; ok {
						parts = append(parts, fmt.Sprintf("%q:%s", k, v))
					}
				}
				s := page(`<title>x</title><script type="application/ld+json">{`+strings.Join(parts, ",")+`}</script>`, "<p>"+longText+"</p>")
				t.Begin("%s", s)
				total(t, s, docURI)
			}})
			fs = append(fs, Family{Name: "json-ld-root", N: size(len(c01JSON), 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				k := d.n(3)
				v := pick(d, c01JSON)
				if k == 1 {
					v = "<![CDATA[" + v + "]]>"
				} else if k == 2 {
					v = `{"@context":"http://schema.org","@graph":` + v + `}`
				}
				s := page(`<script type="application/ld+json">`+v+`</script>`, "<p>"+longText+"</p>")
				t.Begin("%s", s)
				total(t, s, docURI)
			}})
			// titles
			tp := []string{"w", "w x y z v", " ", "-", " - ", " | ", ": ", ":", "»", " > ", "", "é", "<b>", "&amp;"}
			fs = append(fs, Family{Name: "titles", N: seqCount(len(tp), 0, 4), Run: func(t *T, i uint64) {
				var b strings.Builder
				for _, k := range seqAt(i, len(tp), 0, 4) {
					b.WriteString(tp[k])
				}
				s := page("<title>"+b.String()+"</title>", "<h1>"+b.String()+"</h1><p>"+longText+"</p>")
				t.Begin("%s", s)
				total(t, s, docURI)
			}})
			// edits of well-formed documents: truncation, deletion, insertion, at every byte
			ne := 2 + len(c01Bytes)
			var tot uint64
			for _, b := range c01Bases {
				tot += uint64(len(b) * ne)
			}
			fs = append(fs, Family{Name: "edits", N: tot, Run: func(t *T, i uint64) {
				var s string
				for _, b := range c01Bases {
					n := uint64(len(b) * ne)
					if i < n {
						pos, e := int(i)/ne, int(i)%ne
						switch e {
						case 0:
							s = b[:pos]
						case 1:
							s = b[:pos] + b[pos+1:]
						default:
							s = b[:pos] + c01Bytes[e-2] + b[pos:]
						}
						break
					}
					i -= n
				}
				t.Begin("%s", s)
				total(t, s, docURI)
			}})
			// option values
			thr := []int{-1 << 62, -1, 0, 1, 25, 500, 1 << 62}
			ntop := []int{-1, 0, 1, 2, 3, 5, 1000}
			maxe := []int{-5, 0, 1, 8, 1000}
			cls := [][]string{nil, {""}, {"a", "b"}}
			rgx := []*regexp.Regexp{nil, regexp.MustCompile(""), regexp.MustCompile("youtube")}
			docs := append(append([]string{}, c01Bases...), page("", ""), page("", "x"), page("", strings.Repeat("<div class=\"c\"><p>"+prose("q", 130)+"</p></div>", 6)), page("", "<div><iframe src=\"//youtube.com\"></iframe><object><embed src=\"x\"/></object></div>"+longText))
			fs = append(fs, Family{Name: "options", N: size(len(docs), len(thr), len(ntop), len(maxe), len(cls), len(rgx), 4), Run: func(t *T, i uint64) {
				d := &dec{i}
				k, rg, c, m, nt, th, doc := d.n(4), pick(d, rgx), pick(d, cls), pick(d, maxe), pick(d, ntop), pick(d, thr), pick(d, docs)
				t.Begin("threshold=%d ntop=%d maxelems=%d classes=%q regex=%v k=%d %s", th, nt, m, c, rg, k, doc)
				opts := []readability.Option{readability.CharThreshold(th), readability.NTopCandidates(nt), readability.MaxElemsToParse(m), readability.ClassesToPreserve(c...), readability.AllowedVideoRegex(rg),
					readability.KeepClasses(k&1 == 1), readability.DisableJSONLD(k&2 == 2)}
				if k == 3 {
					opts = append(opts, readability.Html2Text(func(s string) string { return "" }), readability.Serializer(func(n *readability.Node) string { return "" }))
				}
				total(t, doc, docURI, opts...)
			}})
			mcl := []int{-1 << 62, -1, 0, 1, 140, 1 << 62}
			msc := []float64{-1e300, -1, 0, 20, 1e300}
			fs = append(fs, Family{Name: "readerable-options", N: size(len(docs), len(mcl), len(msc), 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				k, sc, cl, doc := d.n(3), pick(d, msc), pick(d, mcl), pick(d, docs)
				t.Begin("minContentLength=%d minScore=%g visibility=%d %s", cl, sc, k, doc)
				opts := []readability.Option{readability.MinContentLength(cl), readability.MinScore(sc)}
				if k > 0 {
					opts = append(opts, readability.VisibilityChecker(func(n *html.Node) bool { return k == 1 }))
				}
				t.Trans++
				t.Outcome(fmt.Sprint(readability.IsProbablyReaderable(doc, opts...)))
				t.State(t.desc)
			}})
			// depth and width
			sizes := []int{1, 2, 3, 5, 10, 50, 200, 600}
			if deep {
				sizes = append(sizes, 2000)
			}
			nest := []string{"div", "p", "span", "table", "td", "ul", "li", "a", "section", "blockquote", "font", "svg", "b", "form", "noscript", "article", "figure", "h2", "x"}
			fs = append(fs, Family{Name: "depth-width", N: size(len(nest), len(sizes), 5), Slow: true, Run: func(t *T, i uint64) {
				d := &dec{i}
				k, n, g := d.n(5), pick(d, sizes), pick(d, nest)
				var s string
				switch k {
				case 0:
					s = strings.Repeat("<"+g+">", n) + longText + strings.Repeat("</"+g+">", n)
				case 1:
					s = strings.Repeat("<"+g+">", n) + longText
				case 2:
					s = strings.Repeat("<"+g+">x</"+g+">", n) + longText
				case 3:
					s = longText + strings.Repeat("<"+g+"><br/></"+g+">", n)
				case 4:
					s = strings.Repeat("</"+g+">", n) + longText + strings.Repeat("<"+g+"/>", n)
				}
				s = page("", "<div>"+s+"</div>")
				t.Begin("%s", short(s))
				total(t, s, docURI)
			}})
			// large documents: time and memory in proportion to their size
			flat := [][4]string{}
			for _, e := range c01Flat {
				flat = append(flat, [4]string{e[0], e[1], e[2], ""})
			}
			fs = append(fs, Family{Name: "large", N: size(len(flat), 2), Slow: true, Limit: 90 * time.Second, Run: func(t *T, i uint64) {
				d := &dec{i}
				n, f := []int{1000, 10000}[d.n(2)], pick(d, flat)
				proportionate(t, f[0]+strings.Repeat(f[1], n)+f[2], 20*time.Second)
			}})
			if deep {
				fs = append(fs, Family{Name: "large-pairs", N: size(len(flat), len(flat)), Slow: true, Run: func(t *T, i uint64) {
					d := &dec{i}
					f, g := pick(d, flat), pick(d, flat)
					proportionate(t, f[0]+strings.Repeat(f[1]+g[1], 5000)+f[2], 40*time.Second)
				}})
			}
			dn := 400
			if deep {
				dn = 1000
			}
			dtags := []string{"div", "p", "span", "table", "td", "tr", "ul", "li", "a", "section", "blockquote", "font", "svg", "form", "fieldset", "noscript", "article", "figure", "h2", "object", "picture", "pre", "code", "ins", "x"}
			dfill := [][2]string{{"", ""}, {"t ", ""}, {"<b>x</b>", " y, "}, {"", "<p>q, r</p>"}, {"<br/><br/>", ""}, {"<img src=\"a.png\"/>", ""}, {"<a href=\"/x\">l</a>", "<div>z</div>"}}
			fs = append(fs, Family{Name: "deep", N: size(len(dtags), len(dfill)), Slow: true, Run: func(t *T, i uint64) {
				d := &dec{i}
				g, f := pick(d, dtags), pick(d, dfill)
				proportionate(t, strings.Repeat("<"+g+">"+f[0], dn)+longText+strings.Repeat(f[1]+"</"+g+">", dn), 90*time.Second)
			}})
			// large values: attributes, titles, names and scripts of many parts (# numbers them)
			values := [][3]string{
				{"<p", ` a#="v"`, ">x</p>"}, {"<p", ` id="v#"`, ">x</p>"}, {`<p class="`, "c# ", `">x</p>`}, {`<p class="page `, "page ", `">x</p>`}, {`<p id="`, "share-#", `">x</p>`}, {`<p style="`, "a#:b;", `">x</p>`}, {`<p style="`, "display:;", `none">x</p>`}, {`<img src="a.png" srcset="`, "i#.png #w, ", `"/>`}, {`<img data-srcset="`, "i#.jpg #w, ", `"/>`},
				{`<a href="`, "a#/", `">x</a>`}, {`<a href="`, "../", `x">x</a>`}, {`<a href="`, "a#,%20", `">x</a>`}, {`<a href="?`, "k#=v&", `">x</a>`}, {`<a href="`, " ", `javascript:x">x</a>`}, {`<a href="`, "%zz", `">x</a>`}, {`<img src="data:image/png;base64,`, "AAAA", `" data-x="a.jpg"/>`}, {`<base href="`, "b#/", `"/>`},
				{"<title>", "word# ", "</title>"}, {"<title>", " - ", "</title>"}, {"<title>", ": w", "</title>"}, {"<title>a b c d", " | part #", "</title><h1>x</h1>"}, {"<h1>", "word# ", "</h1>"}, {"<h2>", "a ", "</h2>"}, {`<p class="byline">`, "name# ", "</p>"}, {`<meta name="title" content="`, "word# ", `"/>`}, {`<meta property="`, "og:title ", `" content="x"/>`}, {`<meta name="`, "dc.", `title" content="x"/>`}, {`<meta name="author" content="`, "&amp;#38;", `"/>`},
				{`<script type="application/ld+json">{"@context":"https://schema.org","@type":"Article","name":`, "[", `</script>`}, {`<script type="application/ld+json">{"@context":"https://schema.org","@graph":[`, `{"@type":"Thing#"},`, `{"@type":"Article","name":"n"}]}</script>`}, {`<script type="application/ld+json">{"@context":"https://schema.org","@type":"Article","author":[`, `{"name":"n#"},`, `{"name":"z"}]}</script>`}, {`<script type="application/ld+json">`, "<![CDATA[", `</script>`},
				{`<iframe src="`, "//youtube.", `x"></iframe>`}, {`<object data="//youtube.com/">`, `<param name="p#"/>`, "</object>"}, {"<p>", "&#38;#", "</p>"}, {"<p>", ", , ", "</p>"}, {"<p>", "\u00a0\n ", "x</p>"}, {"<p>", "<", "</p>"}, {"<p>", "&", "</p>"}, {"<p>", ". ", "</p>"}, {"<!--", "- -", "-->"}, {"", "<x-#>", ""}, {"<x", ":y", ">z"}, {`<td colspan="`, "9", `">x</td>`},
			}
			fs = append(fs, Family{Name: "large-values", N: size(len(values), 2, 2), Slow: true, Limit: 90 * time.Second, Run: func(t *T, i uint64) {
				d := &dec{i}
				n, where, v := []int{1000, 10000}[d.n(2)], d.n(2), pick(d, values)
				if v[1] == "<x-#>" && n > 1000 {
					return // one in the other: see above
				}
				var b strings.Builder
				b.WriteString(v[0])
				for k := 0; k < n; k++ {
					b.WriteString(strings.ReplaceAll(v[1], "#", fmt.Sprint(k)))
				}
				b.WriteString(v[2])
				if where == 0 { // before everything else, or after
					proportionate(t, b.String()+longText, 20*time.Second)
				} else {
					proportionate(t, "<p>"+longText+"</p><h2>word1 word2 word3</h2>"+b.String()+"<h1>word1 and word2</h1>", 20*time.Second)
				}
			}})
			// elements which are searched for a single image, in each other
			fs = append(fs, Family{Name: "deep-images", N: 2, Slow: true, Limit: 90 * time.Second, Run: func(t *T, i uint64) {
				g := []string{"noscript", "noscript><i"}[i]
				c := []string{"noscript", "i></noscript"}[i]
				n := []int{3000, 1500}[i]
				proportionate(t, "<img src=\"a.png\"/>"+strings.Repeat("<"+g+">", n)+"<img src=\"b.jpg\"/>"+strings.Repeat("</"+c+">", n), 40*time.Second)
			}})
			return fs
		}})
}

var c01Flat = [][3]string{
	{"", "<p>some words here, and more</p>", ""}, {"", "x<br/><br/>", ""}, {"", "x<br/>", ""}, {"", "<br/>", ""}, {"", "<div>a b c, d e f g h i j k l m n o p q r</div>", ""}, {"", "text <b>x</b> <div><p>q</p><p>r</p></div>", ""},
	{longText, `<img src="a.png"/>`, ""}, {longText, `<a href="x">y</a> `, ""}, {"<ul>", `<li>a <a href="x">y</a></li>`, "</ul>"}, {"<table>", "<tr><td>a</td><td>b</td></tr>", "</table>"}, {"", "<table><tr><td>a</td><td>b</td></tr></table>", ""},
	{"", `<img src="a.png"/><noscript><img src="b.jpg"/></noscript>`, ""}, {longText, `<meta property="og:title" content="x"/>`, ""}, {"<p>", "word, ", "</p>"}, {"", "<h2>a heading here</h2>", ""}, {longText, `<div class="share"><p>aa</p></div>`, ""}, {longText, `<div hidden="">aa</div>`, ""},
	{longText, "<section><p>some words here, and more</p></section>", ""}, {longText, "<div><div><p>some words here, and more</p><p>x</p></div></div>", ""}, {longText, `<a href="javascript:x">y<b>z</b></a>`, ""}, {longText, "<script>x</script>", ""}, {longText, `<iframe src="//youtube.com/x"></iframe>`, ""}, {longText, `<object data="//youtube.com/x"></object>`, ""},
	{longText, "<font>x</font>", ""}, {longText, `<p class="byline">` + strings.Repeat("x", 100) + "</p>", ""}, {longText, "<pre>code</pre>", ""}, {longText, `<figure data-src="a.jpg"></figure>`, ""}, {"<table><tr>", "<td>a</td>", "</tr></table>"}, {longText, "<p></p>", ""}, {longText, "<div></div>", ""}, {longText, "<svg><path/></svg>", ""}, {longText, "<input/>", ""},
	{"<blockquote>", "<p>some words here, and more</p>", "</blockquote>"}, {longText, "</div>", ""}, {longText, "&amp; &lt; &eacute; ", ""}, {longText, "<![CDATA[x]]>", ""}, {longText, "<!-- c -->", ""}, {longText, "<embed/>", ""}, {longText, "<h1>heading</h1>", ""}, {longText, "<form><p>x</p></form>", ""}, {"<div><div>", "<p>some words here, and more</p>", "</div><p>x</p></div>"},
}

// proportionate runs everything on a large document, within what is several
// times what it needs: the given computation time and 6 GB of allocations overall.
func proportionate(t *T, body string, limit time.Duration) {
	src := page("", "<div>"+body+"</div>")
	t.Begin("%s", short(src))
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	c0 := cpuTime()
	t.Trans += 3
	r, err := readability.New(src, docURI, readability.MaxElemsToParse(0))
	if err == nil {
		if res, err := r.Parse(); err == nil {
			t.Outcome(fmt.Sprint(len(res.TextContent), len(res.HTMLContent)))
			t.State(src)
		}
	}
	readability.IsProbablyReaderable(src)
	cpu := cpuTime() - c0
	runtime.ReadMemStats(&m1)
	if mem := (m1.TotalAlloc - m0.TotalAlloc) >> 20; mem > 6<<10 {
		t.Fail("a document of %d KB takes %d MB", len(src)>>10, mem)
	}
	if cpu > limit {
		t.Fail("a document of %d KB takes %v", len(src)>>10, cpu.Round(time.Second))
	}
}

func cpuTime() time.Duration {
	var u syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &u) != nil {
		return 0
	}
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// forests lists the ordered forests of n nodes, as balanced parentheses.
func forests(n int) []string {
	var out []string
	var rec func(s string, open, left int)
	rec = func(s string, open, left int) {
		if left == 0 && open == 0 {
			out = append(out, s)
			return
		}
		if left > 0 {
			rec(s+"(", open+1, left-1)
		}
		if open > 0 {
			rec(s+")", open-1, left)
		}
	}
	rec("", 0, n)
	return out
}

func attrCase(t *T, g, a, v string, long bool) {
	txt := "x"
	if long {
		txt = longText
	}
	el := "<" + g + " " + a + "=\"" + strings.ReplaceAll(v, "\"", "&quot;") + "\">x y</" + g + ">"
	s := page("", "<div><p>"+txt+"</p>"+el+"</div>")
	switch g {
	case "html":
		s = "<html " + a + "=\"" + v + "\"><body><p>" + txt + "</p></body></html>"
	case "body":
		s = "<html><body " + a + "=\"" + v + "\"><p>" + txt + "</p></body></html>"
	case "meta", "base", "link", "title", "style", "head":
		s = page(el, "<p>"+txt+"</p>")
	}
	t.Begin("%s", s)
	total(t, s, docURI)
}
