package main

import (
	"fmt"
	"strings"

	readability "github.com/giulianopz/go-readability"
)

// C05: hidden content never surfaces, whatever the retry pass.

var c05Conceal = []string{
	`style="display:none"`, `style="display: none;"`, `style=" DISPLAY : NONE "`, `style="color:red;display:none"`, `style="display:none !important"`, `style="display:none!important;color:red"`, `style="visibility:hidden"`, `style="VISIBILITY: Hidden"`, `style="width:1px; visibility : hidden ;"`, `style="visibility:hidden!important"`, "style=\"color:red;\n display:none;\"",
	`hidden=""`, `hidden="hidden"`, `hidden`, `aria-hidden="true"`, `aria-hidden="true" class="content"`, `aria-modal="true" role="dialog"`, `role="dialog" aria-modal="true" class="article"`,
	`role="menu"`, `role="menubar"`, `role="complementary"`, `role="navigation"`, `role="alert"`, `role="alertdialog"`, `role="dialog"`,
	`class="fallback-image" hidden=""`, `class="fallback-image" style="display:none"`, `hidden="" aria-hidden="false"`, `aria-hidden="true" role="main" id="main"`, `style="display:block;visibility:hidden"`, `hidden="until-found"`, `hidden="true"`, `hidden="false"`,
	// of several attributes of a name the first counts
	`style="display:none" style="display:block"`, `aria-hidden="true" aria-hidden="false"`, `role="menu" role="main"`,
}

// inline style declarations: of what, whether it hides, and whether it is important
var styleDecls = []struct {
	css, prop  string
	hides, imp bool
}{
	{"display:none", "d", true, false}, {"display: block", "d", false, false}, {" DISPLAY : None ! important", "d", true, true}, {"display:inline-block!important", "d", false, true}, {"visibility:hidden", "v", true, false}, {"visibility:visible", "v", false, false}, {"Visibility: hidden!IMPORTANT ", "v", true, true}, {"color:red", "", false, false}, {"display:", "", false, false}, {"/* a;b */display/**/:/* c */none", "d", true, false}, {"/*display:none;*/color:blue", "", false, false}, {"background:url(http://h.example/a.png)", "", false, false}, {"my-display:none", "", false, false}, {"content:none", "", false, false}, {"display:flex/*;none*/", "d", false, false}, {"none", "", false, false}, {"", "", false, false},
}

var styleSeps = []string{";", " ; "}

func styleOf(seq []int, sep string) (string, bool) {
	var b []string
	hides, imp := map[string]bool{}, map[string]bool{}
	for _, k := range seq {
		x := styleDecls[k]
		b = append(b, x.css)
		if x.prop == "" || imp[x.prop] && !x.imp {
			continue
		}
		hides[x.prop], imp[x.prop] = x.hides, x.imp
	}
	return strings.Join(b, sep), hides["d"] || hides["v"]
}

// H is the concealed element (with its secret words), V visible words
var c05Shapes = []struct{ tag, inner string }{
	{"p", "SECRET"}, {"p", "SHORT"}, {"div", "SECRET"}, {"div", "<p>SECRET</p>"}, {"div", "<p>SECRET</p><p>SHORT</p>"}, {"div", "<div><p>SECRET</p></div>"}, {"span", "SHORT"}, {"span", "SECRET"}, {"section", "<p>SECRET</p>"}, {"article", "<p>SECRET</p><p>SECRET2</p>"}, {"ul", "<li>SHORT</li>"}, {"li", "SHORT"}, {"h2", "SHORT"}, {"h1", "SHORT"}, {"table", "<tr><td>SECRET</td></tr>"}, {"td", "SECRET"}, {"blockquote", "SECRET"}, {"pre", "SECRET"}, {"a", "SHORT"}, {"figure", "<img src=\"a.png\"/><figcaption>SHORT</figcaption>"}, {"header", "SECRET"}, {"form", "<p>SECRET</p>"}, {"em", "SHORT"}, {"font", "SHORT"}, {"center", "<p>SECRET</p>"}, {"main", "<p>SECRET</p>"}, {"nav", "SHORT"}, {"dl", "<dt>SHORT</dt><dd>SECRET</dd>"}, {"x-y", "SECRET"}, {"code", "SHORT"}, {"svg", "<text>SHORT</text>"}, {"label", "SHORT"},
}

var c05Places = []string{
	"H", "<div>H</div>", "<div><div>H</div></div>", "<p>vis0 H vis1</p>", "<div>VPROSE H VPROSE2</div>", "<div><p>VPROSE</p>H</div>", "<div>H<p>VPROSE</p></div>", "<section>H</section>", "<ul><li>vis0 H</li></ul>", "<table><tr><td>vis0</td><td>H</td></tr></table>", "<table><tr><td>H</td></tr></table>", "<table><tr><td><table><tr><td><div class=\"sidebar\">H</div></td></tr></table></td></tr></table>", "<div class=\"sidebar\">H<p>VPROSE</p></div>", "<blockquote><p>VPROSE H</p></blockquote>", "vis0<br/><br/>H vis1<br/><br/>vis2", "<pre><code>vis0 H</code></pre>", "<font>H</font>", "<div> H </div>", "<div>\n<div>H</div>\n</div>", "<article><header>H</header><p>VPROSE</p></article>", "<div><span>vis0</span> H <span>vis1</span></div>", "<figure>H</figure>", "<div><br/>H</div>", "<body>H</body>", "<form>H VPROSE</form>", "<a href=\"http://x.example\">H</a>", "<noscript>H</noscript><div>H</div>", "<div>H<hr/></div>", "<div class=\"byline\">vis0 vis1</div>H",
}

func c05Render(place, conceal, tag, inner string) string {
	in := strings.NewReplacer("SECRET2", prose("hidtwo", 150), "SECRET", prose("hidone", 150), "SHORT", "hidshort0, hidshort1.").Replace(inner)
	h := "<" + tag + " " + conceal + ">" + in + "</" + tag + ">"
	// the same hidden block may show up more than once
	return strings.NewReplacer("VPROSE2", prose("vist", 120), "VPROSE", prose("visp", 120), "H", h).Replace(place)
}

func c05Frame(k int, b string) (string, []readability.Option) {
	switch k {
	case 0: // a single pass is enough
		return page("", "<div>"+paras("art", 3, 220)+b+"</div>"), nil
	case 1: // every pass is tried
		return page("", b+"<p>"+prose("art", 60)+"</p>"), nil
	case 2: // a pass which succeeds late: the first ones remove the unlikely parts
		return page("", "<div class=\"comment\">"+paras("art", 3, 180)+"</div>"+b), nil
	case 3:
		return page("<title>art0 art1 art2</title>", b+b+"<div>"+paras("art", 2, 200)+"</div>"), []readability.Option{readability.CharThreshold(1 << 30)}
	case 4:
		return "<body>" + b + "<p>" + prose("art", 90) + "</p></body>", nil
	case 5: // nothing but the hidden block
		return page("", b), nil
	}
	return page("", "<div class=\"x\">"+b+"</div><div class=\"x\">"+paras("art", 3, 220)+"</div>"), []readability.Option{readability.CharThreshold(1)}
}

func c05Judge(t *T, src string, res *readability.Result) {
	t.State(src)
	t.Outcome(res.HTMLContent)
	for _, f := range []struct{ name, s string }{{"TextContent", res.TextContent}, {"HTMLContent", res.HTMLContent}, {"Excerpt", res.Excerpt}} {
		if i := strings.Index(f.s, "hid"); i >= 0 {
			if strings.Contains(f.s, "hidone") || strings.Contains(f.s, "hidtwo") || strings.Contains(f.s, "hidshort") {
				t.Fail("hidden text is in %s: %s", f.name, short(f.s))
			}
		}
	}
}

func init() {
	const frames = 7
	register(&Prop{ID: "C05", Level: "exploration",
		Rule: "every way of hiding x every kind of element x every place x frames which need 1 to 4 passes; hidden words are unique; non-trivial: a result was returned",
		Families: func(tier string) []Family {
			var fs []Family
			nc, ns, np := len(c05Conceal), len(c05Shapes), len(c05Places)
			fs = append(fs, Family{Name: "hidden", N: size(nc, ns, np, frames), Run: func(t *T, i uint64) {
				d := &dec{i}
				f, pl, sh, c := d.n(frames), pick(d, c05Places), pick(d, c05Shapes), pick(d, c05Conceal)
				src, opts := c05Frame(f, c05Render(pl, c, sh.tag, sh.inner))
				t.Begin("%s", src)
				res, err := t.Parse(src, docURI, opts...)
				if err != nil {
					t.Outcome(err.Error())
					return
				}
				c05Judge(t, src, res)
			}})
			// nested places
			basic := []int{0, 11, 14, 16, 24}
			nsh := []int{0, 2, 3, 6, 8, 9}
			fs = append(fs, Family{Name: "nested", N: size(len(basic), len(nsh), np, np, 2), Run: func(t *T, i uint64) {
				d := &dec{i}
				f, p2, p1, sh, c := d.n(2), pick(d, c05Places), pick(d, c05Places), c05Shapes[pick(d, nsh)], c05Conceal[pick(d, basic)]
				in := c05Render(p2, c, sh.tag, sh.inner)
				src, opts := c05Frame(f, strings.NewReplacer("VPROSE2", prose("wist", 120), "VPROSE", prose("wisp", 120), "H", in).Replace(p1))
				t.Begin("%s", src)
				res, err := t.Parse(src, docURI, opts...)
				if err != nil {
					t.Outcome(err.Error())
					return
				}
				c05Judge(t, src, res)
			}})
			// any mined class, id or element name must not lift the concealment
			names := minedNames()
			fs = append(fs, Family{Name: "mined", N: size(len(names), len(basic), 5, 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				f, k, c, n := d.n(3), d.n(5), c05Conceal[pick(d, basic)], pick(d, names)
				if strings.HasPrefix(c, "aria-hidden") && strings.Contains(n, "fallback-image") {
					return
				}
				var b string
				switch k {
				case 0:
					b = c05Render("H", c+" class=\""+n+"\"", "div", "<p>SECRET</p>")
				case 1:
					b = c05Render("<div>H</div>", c+" id=\""+n+"\"", "p", "SECRET")
				case 2:
					b = c05Render("<div><p>VPROSE</p>H</div>", c+" "+n+"=\"true\"", "div", "SECRET")
				case 3:
					switch n {
					case "html", "body", "head", "title", "textarea", "iframe", "noscript", "script", "style", "meta", "link", "base", "hidden", "style-", "role", "class":
						return
					}
					b = c05Render("<div>H</div>", c, n, "SECRET")
				case 4:
					b = c05Render("<div class=\""+n+"\">H<p>VPROSE</p></div>", c, "div", "SECRET")
				}
				if (k == 2) && (n == "style" || n == "role" || n == "hidden" || n == "aria-hidden" || n == "class") {
					return
				}
				src, opts := c05Frame(f, b)
				t.Begin("%s", src)
				res, err := t.Parse(src, docURI, opts...)
				if err != nil {
					t.Outcome(err.Error())
					return
				}
				c05Judge(t, src, res)
			}})
			// two hidden blocks, next to each other or apart
			fs = append(fs, Family{Name: "pairs", N: size(nc, nc, 8, 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				f, k, c2, c1 := d.n(3), d.n(8), pick(d, c05Conceal), pick(d, c05Conceal)
				a := c05Render("H", c1, "p", "SECRET")
				b := c05Render("H", c2, "div", "<p>SECRET2</p>")
				body := []string{a + b, "<div>" + a + "</div>" + b, "<div>" + a + b + "</div>", a + "<p>vis0</p>" + b, "<div>" + c05Render("H", c1, "div", a+b) + "</div>", "<div>" + a + " " + a + "</div>", "<div>vis0 " + c05Render("H", c2, "span", "SHORT") + a + "</div>", "<section><div>" + b + "</div><div>" + a + "</div></section>"}[k]
				src, opts := c05Frame(f, body)
				t.Begin("%s", src)
				res, err := t.Parse(src, docURI, opts...)
				if err != nil {
					t.Outcome(err.Error())
					return
				}
				c05Judge(t, src, res)
			}})
			// rows of siblings: whatever is removed, what comes next is looked at
			row := []string{"<span hidden=\"\">SHORT</span>", "<span style=\"display:none\">SHORT</span>", "<p aria-hidden=\"true\">SECRET</p>", "<div style=\"visibility:hidden\"><p>SECRET</p></div>", "<em hidden=\"\"><b>SHORT</b></em>", "<span>vis0</span>", "<p>VPROSE</p>", "<div class=\"sidebar\"><p>vis1</p></div>", "<p class=\"byline\">vis2</p>", "<div></div>", "<div>VPROSE</div>", " vis3 ", "<br/>"}
			rows := []string{"X", "<div>X</div>", "<p>X</p>", "<div><span>X</span><p>VPROSE</p></div>"}
			rl := 3
			if tier == "thorough" {
				rl = 4
			}
			fs = append(fs, Family{Name: "rows", N: seqCount(len(row), 1, rl) * size(len(rows), 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				r, f := pick(d, rows), d.n(3)
				x := ""
				for _, k := range seqAt(d.i, len(row), 1, rl) {
					x += row[k]
				}
				b := strings.NewReplacer("SECRET", prose("hidone", 150), "SHORT", "hidshort0, hidshort1.", "VPROSE", prose("visp", 120)).Replace(strings.Replace(r, "X", x, 1))
				src, opts := c05Frame(f, b)
				t.Begin("%s", src)
				res, err := t.Parse(src, docURI, opts...)
				if err != nil {
					t.Outcome(err.Error())
					return
				}
				c05Judge(t, src, res)
			}})
			// every list of declarations: the last of a property counts, important ones first
			fs = append(fs, Family{Name: "declarations", N: seqCount(len(styleDecls), 1, 3) * size(len(styleSeps), 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				sep, f := pick(d, styleSeps), d.n(3)
				css, hid := styleOf(seqAt(d.i, len(styleDecls), 1, 3), sep)
				b := c05Render("<div><p>VPROSE</p>H</div>", `style="`+css+`"`, "p", "SECRET")
				src, opts := c05Frame([]int{0, 3, 6}[f], b)
				t.Begin("%s", src)
				res := t.MustParse(src, docURI, opts...)
				if res == nil {
					return
				}
				if hid {
					c05Judge(t, src, res)
					return
				}
				t.State(src)
				t.Outcome(res.HTMLContent)
				if f != 2 && !strings.Contains(res.TextContent, "hidone0") {
					t.Fail("visible text is missing: %s", short(res.HTMLContent))
				}
			}})
			// other attributes of a hidden element do not lift the concealment
			comp := []string{`title="t"`, `id="k"`, `id="content"`, `class="c"`, `class="article text"`, `lang="en"`, `dir="ltr"`, `data-x="y"`, `name="n"`, `role="main"`, `role="article"`, `tabindex="0"`, `itemprop="articleBody"`, `alt="a"`, `href="http://h.example/"`, `src="http://h.example/i.png"`, `aria-label="l"`, `aria-modal="false"`, `aria-hidden="false"`, `onclick="x()"`, `width="5"`, `style="color:red"`, `rel="author"`}
			csh := []int{0, 2, 3, 6, 8}
			fs = append(fs, Family{Name: "companions", N: size(nc, len(comp), len(csh), 3, 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				f, pl, sh, k, c := d.n(3), d.n(3), c05Shapes[pick(d, csh)], pick(d, comp), pick(d, c05Conceal)
				src, opts := c05Frame([]int{0, 1, 6}[f], c05Render([]string{"<div><p>VPROSE</p>H</div>", "<p>vis0 H vis1</p>", "<div>H</div>"}[pl], c+" "+k, sh.tag, sh.inner))
				t.Begin("%s", src)
				res, err := t.Parse(src, docURI, opts...)
				if err != nil {
					t.Outcome(err.Error())
					return
				}
				c05Judge(t, src, res)
			}})
			// control: without the concealment the words do surface (the oracle is not vacuous)
			fs = append(fs, Family{Name: "control", N: 3, Run: func(t *T, i uint64) {
				sh := []int{0, 2, 8}[i]
				src, opts := c05Frame(0, c05Render("<div>H</div>", `title="x"`, c05Shapes[sh].tag, c05Shapes[sh].inner))
				t.Begin("control %s", src)
				res := t.MustParse(src, docURI, opts...)
				if res != nil && !strings.Contains(res.TextContent, "hidone") {
					t.Fail("a visible paragraph among those of the article is missing: %s", res.TextContent)
				}
				t.State("control", fmt.Sprint(i))
			}})
			return fs
		}})
}
