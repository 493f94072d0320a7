package main

import (
	"fmt"
	"regexp"
	"strings"

	readability "github.com/giulianopz/go-readability"
	"golang.org/x/net/html"
)

// C04: no active or interactive elements, no javascript links in the content,
// as seen by a conforming HTML parser.

var c04Forbidden = map[string]bool{
	"script": true, "noscript": true, "style": true, "link": true, "object": true, "embed": true, "iframe": true, "input": true,
	"textarea": true, "select": true, "button": true, "aside": true, "footer": true, "h1": true,
}

func jsURI(u string) bool {
	u = strings.Map(func(c rune) rune {
		if c == '\t' || c == '\n' || c == '\r' {
			return -1
		}
		return c
	}, u)
	u = strings.TrimLeftFunc(u, func(c rune) bool { return c <= ' ' })
	return strings.HasPrefix(strings.ToLower(u), "javascript:")
}

// sanitized judges the content; embeds tells which embeds may stay.
func sanitized(t *T, content string, allowed func(*html.Node) bool) {
	for _, scripting := range []bool{true, false} {
		root := parseScripting(content, scripting)
		walk(root, func(n *html.Node) {
			if n.Type != html.ElementNode {
				return
			}
			if c04Forbidden[n.Data] {
				if (n.Data == "iframe" || n.Data == "embed" || n.Data == "object") && allowed != nil && allowed(n) {
					return
				}
				t.Fail("a %s element is in the content: %s", n.Data, short(content))
			}
			if n.Data == "a" || n.Data == "area" {
				for _, a := range n.Attr {
					if (a.Key == "href" || a.Key == "xlink:href") && jsURI(a.Val) {
						t.Fail("a link runs %q: %s", a.Val, short(content))
					}
				}
			}
		})
	}
}

func parseScripting(s string, on bool) *html.Node {
	ctx := &html.Node{Type: html.ElementNode, Data: "body", DataAtom: bodyAtom}
	nodes, err := html.ParseFragmentWithOptions(strings.NewReader(s), ctx, html.ParseOptionEnableScripting(on))
	root := &html.Node{Type: html.ElementNode, Data: "root"}
	if err != nil {
		return root
	}
	for _, n := range nodes {
		root.AppendChild(n)
	}
	return root
}

// what one might try to smuggle in
var c04Payloads = []string{
	"<script>alert(1)</script>", "<SCRIPT src=\"x.js\"></SCRIPT>", "<script src=\"x\"/>", "<noscript><p>PROSE</p></noscript>", "<noscript><img src=\"a.png\"/></noscript>", "<noscript><script>x</script><img src=\"a.png\"/></noscript>",
	"<style>p{}</style>", "<link rel=\"stylesheet\" href=\"x.css\"/>", "<object data=\"x.swf\">PROSE</object>", "<embed src=\"x.swf\"/>", "<iframe src=\"http://ads.example/\"></iframe>", "<iframe>PROSE</iframe>",
	"<input value=\"x\"/>", "<textarea>PROSE</textarea>", "<select><option>Q0</option></select>", "<button>PROSE</button>", "<aside>PROSE</aside>", "<footer>PROSE</footer>", "<h1>Q0 Q1</h1>", "<h1 class=\"content\">PROSE</h1>",
	"<a href=\"javascript:alert(1)\">Q0</a>", "<a href=\" JaVaScRiPt:alert(1)\">Q0 <b>Q1</b></a>", "<a href=\"java&#9;script:x\"><i>Q0</i>Q1</a>", "<a href=\"&#1;javascript:x\"></a>", "<a href=\"javascript&#58;x\"><img src=\"i.png\"/></a>",
	"&lt;script&gt;alert(1)&lt;/script&gt;", "&amp;lt;script&amp;gt;", "<![CDATA[<script>alert(1)</script>]]>", "<!-- <script>x</script> -->", "x < script>y", "<p title=\"&lt;script&gt;x&lt;/script&gt;\">Q0</p>", "<p title='\"><script>x</script>'>Q0</p>", "<title><script>x</script></title>", "<title>Q0 <script>x</script></title>", "<xmp>Q0 <script>x</script></xmp>", "<noembed>Q0 <embed/></noembed>",
	"<svg><script>x</script><style>y</style></svg>", "<form><input/><button>Q0</button>PROSE</form>", "<div><aside><p>PROSE</p></aside></div>", "<font><script>x</script></font>", "<template><script>x</script></template>", "<x:script>Q0</x:script>", "<x:iframe src=\"q\">Q0</x:iframe>", "<math><style>z</style></math>", "<script><!-- <script> </script> -->", "<h1/>", "<object><embed src=\"y\"/><object>PROSE</object></object>", "<picture><source srcset=\"a.png 1x\"/><img src=\"a.png\"/><script>q</script></picture>",
	"<svg><title>Q0 <b>Q1</b> <script>x</script></title></svg>", "<svg><desc>Q0 <i>Q1</i> <script>x</script></desc></svg>", "<svg><xmp>Q0 <i>Q1</i> <script>x</script> <style>y</style></xmp></svg>", "<math><noembed>Q0 <b>Q1</b> <script>x</script></noembed></math>", "<svg><noframes>Q0 < <a href=\"javascript:x\">Q1</a> <iframe></iframe></noframes></svg>",
}

// where it is put
var c04Places = []string{
	"X", "<p>aw0 aw1 X aw2</p>", "<div>X</div>", "<div><p>PROSE</p>X<p>PROSE2</p></div>", "<table><tr><td>aw0</td><td>X</td></tr></table>", "<table summary=\"s\"><tr><td>X</td></tr><tr><td>X</td></tr></table>", "<table><tr><td>X</td></tr></table>", "<ul><li>X</li><li>aw0 aw1</li></ul>", "<section><h2>aw0</h2>X</section>", "<blockquote>PROSE X</blockquote>", "<figure>X<figcaption>aw0</figcaption></figure>", "<pre><code>aw0 X</code></pre>", "<div class=\"sidebar\">X PROSE</div>", "<article>X<p>PROSE</p></article>", "aw0<br/><br/>X aw1<br/><br/>aw2", "<div hidden=\"\">X</div>", "<div class=\"content\"><div><div>X</div></div></div>", "<h2>X aw1</h2>", "<a href=\"http://o.example\">X</a>", "<form>X PROSE</form>",
}

func c04Doc(pay, place string, j int) string {
	tag := tagN(j)
	pay = strings.ReplaceAll(strings.ReplaceAll(pay, "PROSE", prose(tag+"p", 90)), "Q", tag)
	place = strings.ReplaceAll(strings.ReplaceAll(place, "PROSE2", prose(tag+"r", 130)), "PROSE", prose(tag+"q", 130))
	return strings.ReplaceAll(place, "X", pay)
}

func init() {
	register(&Prop{ID: "C04", Level: "exploration",
		Rule: "every unwanted construct (or pair of them) at every kind of place, in all the retry passes, and every mined element name; the content is re-read with a conforming HTML parser, with and without scripting; non-trivial: a result was returned",
		Families: func(tier string) []Family {
			var fs []Family
			np, nl := len(c04Payloads), len(c04Places)
			frames := []func(string) (string, []readability.Option){
				func(b string) (string, []readability.Option) {
					return page("", "<div>"+paras("v", 3, 220)+b+"</div>"), nil
				},
				func(b string) (string, []readability.Option) {
					return page("", b+paras("v", 1, 60)), nil // all the passes
				},
				func(b string) (string, []readability.Option) {
					return page("<title>vw0 vw1 vw2 vw3</title>", b+b+paras("v", 3, 220)), []readability.Option{readability.CharThreshold(100000), readability.KeepClasses(true)}
				},
				func(b string) (string, []readability.Option) {
					return "<body>" + b + "<p>" + prose("v", 520) + "</p></body>", []readability.Option{readability.AllowedVideoRegex(nil)}
				},
			}
			run := func(t *T, frame int, body string) {
				src, opts := frames[frame](body)
				t.Begin("frame=%d %s", frame, src)
				res, err := t.Parse(src, docURI, opts...)
				if err != nil {
					t.Outcome(err.Error())
					return
				}
				t.State(src)
				t.Outcome(res.HTMLContent)
				sanitized(t, res.HTMLContent, nil)
			}
			fs = append(fs, Family{Name: "single", N: size(np, nl, len(frames)), Run: func(t *T, i uint64) {
				d := &dec{i}
				f, pl, pa := d.n(len(frames)), pick(d, c04Places), pick(d, c04Payloads)
				run(t, f, c04Doc(pa, pl, 0))
			}})
			fs = append(fs, Family{Name: "nested-places", N: size(np, nl, nl, 2), Run: func(t *T, i uint64) {
				d := &dec{i}
				f, p2, p1, pa := d.n(2), pick(d, c04Places), pick(d, c04Places), pick(d, c04Payloads)
				run(t, f, c04Doc(c04Doc(pa, p2, 1), p1, 0))
			}})
			q := 2
			if tier == "thorough" {
				q = nl
			}
			fs = append(fs, Family{Name: "pairs", N: size(np, np, q, q, 2), Run: func(t *T, i uint64) {
				d := &dec{i}
				f, l2, l1, p2, p1 := d.n(2), d.n(q), d.n(q), pick(d, c04Payloads), pick(d, c04Payloads)
				run(t, f, c04Doc(p1, c04Places[l1], 0)+c04Doc(p2, c04Places[l2], 1))
			}})
			fs = append(fs, Family{Name: "nested-payloads", N: size(np, np, nl), Run: func(t *T, i uint64) {
				d := &dec{i}
				pl, p2, p1 := pick(d, c04Places), pick(d, c04Payloads), pick(d, c04Payloads)
				in := strings.ReplaceAll(p1, "PROSE", "PROSE"+p2)
				in = strings.ReplaceAll(in, "Q0", "Q0 "+p2)
				run(t, 0, c04Doc(in, pl, 0))
			}})
			// the forbidden elements with every mined class, id, role... which might exempt them
			names := minedNames()
			tags := []string{"script", "style", "object", "iframe", "input", "textarea", "select", "button", "aside", "footer", "h1", "link", "embed", "noscript"}
			fs = append(fs, Family{Name: "mined-exemptions", N: size(len(tags), len(names), 4, 2), Run: func(t *T, i uint64) {
				d := &dec{i}
				f, k, n, g := d.n(2), d.n(4), pick(d, names), pick(d, tags)
				at := []string{"class=\"" + n + "\"", "id=\"" + n + "\"", n + "=\"" + n + "\"", "role=\"" + n + "\""}[k]
				run(t, f, "<div><"+g+" "+at+">"+prose("y", 120)+"</"+g+"></div>")
			}})
			fs = append(fs, Family{Name: "mined-parents", N: size(len(tags), len(names), 2), Run: func(t *T, i uint64) {
				d := &dec{i}
				f, n, g := d.n(2), pick(d, names), pick(d, tags)
				run(t, f, "<"+n+" class=\""+n+"\">w0 <"+g+">"+prose("y", 120)+"</"+g+"> w1</"+n+">")
			}})
			// the forbidden elements with all sorts of attributes, contents and neighbours
			ats := []string{"", "type=\"button\"", "type=\"submit\"", "type=\"hidden\"", "type=\"text/template\"", "type=\"checkbox\" checked=\"\"", "name=\"q\" id=\"q1\" class=\"q\"", "disabled=\"\"", "title=\"t\"", "aria-label=\"Play\"", "contenteditable=\"true\"", "onclick=\"x()\"", "src=\"http://h.example/x\"", "data-x=\"1\" data-y=\"2\"", "media=\"print\"", "scoped=\"\"", "async=\"\" defer=\"\"", "style=\"display:block\"", "width=\"10\" height=\"10\"", "hidden=\"\"", "xmlns=\"http://www.w3.org/1999/xhtml\""}
			kids := []string{"", "Q0", "<b>Q0</b>", "<p>PROSE</p>", "<img src=\"a.png\"/>", "<span>Q0</span> <a href=\"/x\">Q1</a>", "<div><p>PROSE</p><p>Q0</p></div>", "\n Q0 \n"}
			rows := []string{"X", "XX", "X X", "<p>PROSE</p>XX<p>PROSE2</p>X", "<figure>XX</figure>", "<p>aw0 X aw1 X</p>", "<svg>X</svg>", "<ul><li>X</li><li>X</li></ul>"}
			fs = append(fs, Family{Name: "forms-of-it", N: size(len(tags), len(ats), len(kids), len(rows), 2), Run: func(t *T, i uint64) {
				d := &dec{i}
				f, row, kid, at, g := d.n(2), pick(d, rows), pick(d, kids), pick(d, ats), pick(d, tags)
				if at != "" {
					at = " " + at
				}
				run(t, f, c04Doc("<"+g+at+">"+kid+"</"+g+">", row, 0))
			}})
			// javascript links: spellings x contents x places
			sp := []string{"javascript:", "JAVASCRIPT:", "Javascript:void(0)", " javascript:x", "\tjavascript:x", "\njavascript:x", "java\tscript:x", "java\nscript:x", "javascript\r:x", "\x01javascript:x", "&#x6A;avascript:x", "javascript&colon;x", "&#106;&#97;vascript:x", "javascript://%0aalert(1)", "javascript:x#", "javascript:%20", "\u00a0javascript:x"}
			ct := []string{"Q0", "", "<b>Q0</b>", "Q0 <i>Q1</i>", "<img src=\"a.png\"/>", " ", "<p>Q0</p>", "<a href=\"javascript:y\">Q0</a>"}
			fs = append(fs, Family{Name: "javascript-links", N: size(len(sp), len(ct), nl, len(frames)), Run: func(t *T, i uint64) {
				d := &dec{i}
				f, pl, c, s := d.n(len(frames)), pick(d, c04Places), pick(d, ct), pick(d, sp)
				run(t, f, c04Doc("<a href=\""+s+"\">"+c+"</a>", pl, 0))
			}})
			// and links other than a with href
			el := []string{`<svg><a xlink:href="U">C</a></svg>`, `<svg viewBox="0 0 1 1"><g><a xlink:href="U"><text>C</text></a></g></svg>`, `<math><a xlink:href="U">C</a></math>`, `<svg><a xlink:href="/x" href="U">C</a></svg>`, `<svg><a href="/x" xlink:href="U">C</a></svg>`, `<svg><a href="U" xlink:href="U">C</a></svg>`, `<SVG><A XLINK:HREF="U">C</A></SVG>`, `<map name="m"><area href="U"/>C</map>`, `<p>Q2 <area shape="rect" href="U"/> C</p>`, `<AREA HREF="U">C</AREA>`, `<map name="m"><area href="/x"/><area href="U"/>C<a href="U">Q3</a></map>`, `<a name="n" href="/x" href="U">C</a>`, `<a href="U" href="/x">C</a>`, `<A HREF='U'>C</A>`, `<a href=U>C</a>`, `<a/href="U">C</a>`, `<a href = "U">C</a>`, "<a\nhref\n=\n\"U\">C</a>", `<a b=c href="U">C</a>`, `<a href="U"/>C`, `<svg><a xlink:href=U>C</a></svg>`}
			fs = append(fs, Family{Name: "other-links", N: size(len(sp), len(el), len(ct), 3, len(frames)), Run: func(t *T, i uint64) {
				d := &dec{i}
				f, pl, c, e, s := d.n(len(frames)), pick(d, c04Places[:3]), pick(d, ct), pick(d, el), pick(d, sp)
				run(t, f, c04Doc(strings.ReplaceAll(strings.ReplaceAll(e, "C", c), "U", s), pl, 0))
			}})
			// embeds: only what the regular expression allows
			rg := []*regexp.Regexp{nil, regexp.MustCompile(`videos\.example`), regexp.MustCompile(`$^`)}
			em := []string{"<iframe src=\"URL\"></iframe>", "<embed src=\"URL\"/>", "<object data=\"URL\">x</object>", "<object><param value=\"URL\"/></object>", "<object><embed src=\"URL\"/></object>", "<object data=\"URL\"><script>x</script><input/><iframe src=\"http://ads.example/\"></iframe></object>", "<object data=\"URL\"><embed src=\"http://ads.example/\"/><style>x</style><button>b</button><p>c</p></object>", "<iframe data-x=\"URL\" src=\"http://ads.example/\"></iframe>", "<x:iframe src=\"URL\"></x:iframe>"}
			ur := []string{"//www.youtube.com/embed/1", "http://videos.example/1", "http://ads.example/1", "https://player.vimeo.com/video/1", "", "youtube.com", "http://youtube.com.evil.example/", "https://upload.wikimedia.org/x"}
			def := regexp.MustCompile(`(?i)\/\/(www\.)?((dailymotion|youtube|youtube-nocookie|player\.vimeo|v\.qq)\.com|(archive|upload\.wikimedia)\.org|player\.twitch\.tv)`)
			fs = append(fs, Family{Name: "embeds", N: size(len(rg)+1, len(em), len(ur), len(em), len(ur), 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				f := d.n(3)
				e1 := strings.ReplaceAll(pick(d, em), "URL", pick(d, ur))
				e2 := strings.ReplaceAll(pick(d, em), "URL", pick(d, ur))
				k := d.n(len(rg) + 1)
				var opts []readability.Option
				re := def
				if k < len(rg) {
					re = rg[k]
					opts = append(opts, readability.AllowedVideoRegex(re))
				}
				body := []string{"<div>" + paras("v", 3, 220) + e1 + "<p>" + e2 + "</p></div>", e1 + e2 + paras("v", 1, 50), "<div class=\"content\"><div>" + e1 + "</div>" + paras("v", 3, 200) + "</div><div>" + e2 + "</div>"}[f]
				src := page("", body)
				t.Begin("regex=%v frame=%d %s", re, f, src)
				res, err := t.Parse(src, docURI, opts...)
				if err != nil {
					t.Outcome(fmt.Sprint(err))
					return
				}
				t.State(src, fmt.Sprint(k))
				t.Outcome(res.HTMLContent)
				sanitized(t, res.HTMLContent, func(n *html.Node) bool { return embedAllowed(n, re) })
			}})
			return fs
		}})
}

func embedAllowed(n *html.Node, re *regexp.Regexp) bool {
	if re == nil {
		return false
	}
	ok := false
	walk(n, func(x *html.Node) {
		if x == n || n.Data == "object" {
			for _, a := range x.Attr {
				if re.MatchString(a.Val) {
					ok = true
				}
			}
			if x.Type == html.TextNode && re.MatchString(x.Data) {
				ok = true
			}
		}
	})
	// relative references have been resolved meanwhile
	return ok
}
