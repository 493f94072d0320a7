package main

import (
	"fmt"
	"strings"

	readability "github.com/giulianopz/go-readability"
	"golang.org/x/net/html"
)

// C13: presentation and classes.

// every element has the marker data-k and the hole ATTR
var c13Elems = []struct{ tag, markup string }{
	{"p", `<p data-k="1" ATTR>Some words, in a paragraph.</p>`},
	{"div", `<div data-k="1" ATTR><p>Some words, in one, paragraph.</p><p>And, some others, in this one.</p></div>`},
	{"span", `<p>lead <span data-k="1" ATTR>words</span> tail</p>`},
	{"a", `<p>lead <a data-k="1" href="/x" ATTR>words</a> tail</p>`},
	{"img", `<p>lead <img data-k="1" src="/i.png" ATTR/> tail</p>`},
	{"h2", `<h2 data-k="1" ATTR>Heading words</h2><p>text</p>`},
	{"h4", `<h4 data-k="1" ATTR>Heading words</h4><p>text</p>`},
	{"ul", `<ul data-k="1" ATTR><li>one, two</li><li>three</li></ul>`},
	{"li", `<ul><li data-k="1" ATTR>one, two</li><li>three</li></ul>`},
	{"table", `<table data-k="1" ATTR><caption>cap</caption><tr><td>one</td><td>two</td></tr><tr><td>three</td><td>four</td></tr></table>`},
	{"tr", `<table><caption>cap</caption><tr data-k="1" ATTR><td>one</td><td>two</td></tr><tr><td>three</td><td>four</td></tr></table>`},
	{"td", `<table><caption>cap</caption><tr><td data-k="1" ATTR>one</td><td>two</td></tr><tr><td>three</td><td>four</td></tr></table>`},
	{"th", `<table><tr><th data-k="1" ATTR>one</th><th>two</th></tr><tr><td>three</td><td>four</td></tr></table>`},
	{"caption", `<table><caption data-k="1" ATTR>cap</caption><tr><td>one</td><td>two</td></tr></table>`},
	{"pre", `<pre data-k="1" ATTR>code here</pre>`},
	{"code", `<pre><code data-k="1" ATTR>code here</code></pre>`},
	{"blockquote", `<blockquote data-k="1" ATTR><p>quoted words</p></blockquote>`},
	{"figure", `<figure data-k="1" ATTR><img src="/i.png"/><figcaption>cap</figcaption></figure>`},
	{"figcaption", `<figure><img src="/i.png"/><figcaption data-k="1" ATTR>cap</figcaption></figure>`},
	{"em", `<p>lead <em data-k="1" ATTR>words</em></p>`},
	{"hr", `<p>one</p><hr data-k="1" ATTR/><p>two</p>`},
	{"br", `<p>one<br data-k="1" ATTR/>two</p>`},
	{"section", `<section data-k="1" ATTR><p>Some words, in one, paragraph.</p><p>And, some others, in this one.</p></section>`},
	{"video", `<p>lead</p><video data-k="1" src="/v.mp4" ATTR></video>`},
	{"dl", `<dl data-k="1" ATTR><dt>term</dt><dd>definition</dd></dl>`},
	{"iframe", `<p>lead</p><iframe data-k="1" src="https://www.youtube.com/embed/x" ATTR></iframe>`},
	{"font", `<p>lead <font data-k="1" ATTR>words</font> tail</p>`},
	{"center", `<center data-k="1" ATTR><p>Some words, in one.</p><p>And, some others, here.</p></center>`},
	{"time", `<p>on <time data-k="1" ATTR>monday</time> it was</p>`},
}

type c13Attr struct {
	name, val string
	gone      func(tag string) bool
}

var c13Attrs = func() []c13Attr {
	var out []c13Attr
	always := func(string) bool { return true }
	never := func(string) bool { return false }
	sized := func(tag string) bool {
		return tag == "table" || tag == "th" || tag == "td" || tag == "hr" || tag == "pre"
	}
	for _, a := range []struct{ n, v string }{{"align", "left"}, {"background", "b.png"}, {"bgcolor", "red"}, {"border", "1"}, {"cellpadding", "2"}, {"cellspacing", "3"}, {"frame", "box"}, {"hspace", "4"}, {"rules", "all"}, {"style", "color: red"}, {"valign", "top"}, {"vspace", "5"}} {
		out = append(out, c13Attr{a.n, a.v, always})
	}
	out = append(out, c13Attr{"width", "10", sized}, c13Attr{"height", "20", sized})
	for _, a := range []struct{ n, v string }{{"title", "a title"}, {"data-x", "v &amp; w"}, {"lang", "en"}, {"id", "some1"}, {"dir", "ltr"}, {"data-style", "color: red"}, {"colspan", "1"}, {"alt", ""}, {"name", "n"}, {"datetime", "2020-01-01"}, {"bgcolors", "x"}, {"cite", "c"}} {
		out = append(out, c13Attr{a.n, a.v, never})
	}
	return out
}()

// places: X is the fragment
var c13Places = []string{
	"<p>AAA</p>X<p>BBB</p>", "<div><p>AAA</p>X</div><p>BBB</p>", "<blockquote>X</blockquote><p>AAA</p><p>BBB</p>", "<div><div><div>X<p>AAA</p></div></div><p>BBB</p></div>", "<p>AAA</p><svg style=\"x\"><g></g></svg>X<p>BBB</p>", "<ul><li>first, item</li><li>X</li></ul><p>AAA</p><p>BBB</p>",
}

func c13Page(kind int, place, frag string) (string, []readability.Option) {
	body := strings.NewReplacer("X", frag, "AAA", prose("aa", 300), "BBB", prose("bb", 300)).Replace(place)
	switch kind {
	case 0:
		return page("<title>t</title>", "<div>"+body+"</div>"), nil
	case 1: // only found when the unlikely candidates are kept
		return page("<title>t</title>", "<div class=\"comment\">"+body+"</div>"), nil
	case 2: // no pass reaches the threshold
		return page("<title>t</title>", "<div>"+body+"</div>"), []readability.Option{readability.CharThreshold(9000)}
	}
	return page("<title>t</title>", "<article>"+body+"</article>"), nil
}

func init() {
	register(&Prop{ID: "C13", Level: "exploration",
		Rule: "every element x ordered pair (quick) or triple (thorough) of attributes x place x frames for different passes; every class list of up to 3 names x preserve list x KeepClasses; non-trivial: the marked element is in the content",
		Families: func(tier string) []Family {
			var fs []Family
			ne, na, np := len(c13Elems), len(c13Attrs), len(c13Places)
			judge := func(t *T, kind int, place string, e struct{ tag, markup string }, as []c13Attr, opts ...readability.Option) {
				var at []string
				for k, a := range as {
					for _, b := range as[:k] {
						if a.name == b.name {
							return
						}
					}
					at = append(at, fmt.Sprintf(`%s="%s"`, a.name, a.val))
				}
				src, o := c13Page(kind, place, strings.Replace(e.markup, "ATTR", strings.Join(at, " "), 1))
				t.Begin("%s", src)
				res := t.MustParse(src, docURI, append(o, opts...)...)
				if res == nil {
					return
				}
				n := byAttr(parseOut(res.HTMLContent), "data-k", "1")
				if n == nil {
					return // dropped: other properties judge that
				}
				t.State(src)
				for _, a := range as {
					got, ok := attrOf(n, a.name)
					if a.gone(e.tag) {
						if ok {
							t.Fail("<%s> keeps %s=%q: %s", e.tag, a.name, got, short(res.HTMLContent))
							return
						}
					} else if !ok || got != refDecode(a.val) {
						t.Fail("<%s> lost its %s=%q (got %q): %s", e.tag, a.name, a.val, got, short(res.HTMLContent))
						return
					}
				}
				if e.tag == "hr" || e.tag == "pre" || e.tag == "td" || e.tag == "th" || e.tag == "table" {
					t.Outcome("sized", fmt.Sprint(len(n.Attr)))
				}
			}
			fs = append(fs, Family{Name: "single", N: size(ne, na, np, 4), Run: func(t *T, i uint64) {
				d := &dec{i}
				e, a, p, k := pick(d, c13Elems), pick(d, c13Attrs), pick(d, c13Places), d.n(4)
				judge(t, k, p, e, []c13Attr{a})
			}})
			fs = append(fs, Family{Name: "pairs", N: size(ne, na, na, 2), Run: func(t *T, i uint64) {
				d := &dec{i}
				e, a, b, p := pick(d, c13Elems), pick(d, c13Attrs), pick(d, c13Attrs), c13Places[d.n(2)]
				judge(t, 0, p, e, []c13Attr{a, b})
			}})
			if tier == "thorough" {
				fs = append(fs, Family{Name: "triples", N: size(ne, na, na, na), Run: func(t *T, i uint64) {
					d := &dec{i}
					e, a, b, c := pick(d, c13Elems), pick(d, c13Attrs), pick(d, c13Attrs), pick(d, c13Attrs)
					judge(t, 0, c13Places[0], e, []c13Attr{a, b, c})
				}})
			}
			// all of the presentational attributes, everywhere at once: none is left
			all := ""
			for _, a := range c13Attrs[:12] {
				all += fmt.Sprintf(` %s="%s"`, a.name, a.val)
			}
			fs = append(fs, Family{Name: "everywhere", N: size(ne, ne, np, 4), Run: func(t *T, i uint64) {
				d := &dec{i}
				e1, e2, p, k := pick(d, c13Elems), pick(d, c13Elems), pick(d, c13Places), d.n(4)
				m := strings.Replace(e1.markup, "ATTR", `width="1" height="2"`, 1) + strings.Replace(e2.markup, "ATTR", `width="1" height="2"`, 1)
				src, o := c13Page(k, p, m)
				// every start tag gets all of them (svg aside)
				var b strings.Builder
				for j := 0; j < len(src); j++ {
					b.WriteByte(src[j])
					if src[j] == '<' && j+1 < len(src) && src[j+1] != '/' && !strings.HasPrefix(src[j:], "<svg") {
						j++
						for src[j] != ' ' && src[j] != '>' && src[j] != '/' {
							b.WriteByte(src[j])
							j++
						}
						b.WriteString(all)
						j--
					}
				}
				src = b.String()
				t.Begin("%s", src)
				res := t.MustParse(src, docURI, o...)
				if res == nil {
					return
				}
				for _, x := range elems(parseOut(res.HTMLContent), "*") {
					if x.Namespace == "svg" {
						continue
					}
					for _, a := range c13Attrs[:14] {
						if _, ok := attrOf(x, a.name); ok && a.gone(x.Data) {
							t.Fail("<%s> keeps %s: %s", x.Data, a.name, short(res.HTMLContent))
							return
						}
					}
				}
				t.State(src)
			}})
			// every element there is, and every name in the source, around and inside
			ename := append(strings.Fields("abbr address area audio b bdi bdo big cite col colgroup data datalist dd del details dfn dialog dir dt embed fieldset h1 h2 h3 h5 h6 header hgroup i ins kbd label legend main map mark marquee math menu mfrac mi mo mrow mtext meter nav nobr object ol optgroup output param picture progress q rp rt ruby s samp small source span strike strong sub summary sup tbody tfoot thead track tt u var wbr x-own custom:el"), minedNames()...)
			fs = append(fs, Family{Name: "names", N: size(len(ename), 5, 4), Run: func(t *T, i uint64) {
				d := &dec{i}
				n, f, k := pick(d, ename), d.n(5), d.n(4)
				switch n {
				case "svg", "html", "body", "head", "title", "textarea", "noscript", "script", "style", "iframe", "noembed", "noframes", "xmp", "plaintext":
					return
				}
				at := all + ` class="zap zip" width="1" height="2"`
				m := []string{
					"<p>lead <" + n + at + ">words here</" + n + "> tail</p>",
					"<" + n + at + "><p" + at + ">one, two, three</p><b" + at + ">four</b> five</" + n + ">",
					"<div" + at + "><" + n + at + "><" + n + at + ">nested, words</" + n + "></" + n + "> and more of them</div>",
					"<p>lead <em" + at + "><" + n + at + "><i" + at + ">deep</i></" + n + "></em> tail</p>",
					"<p>lead <" + n + at + "/> tail <i" + at + ">x</i></p>",
				}[f]
				src, o := c13Page(k, c13Places[0], m)
				t.Begin("%s", src)
				res := t.MustParse(src, docURI, o...)
				if res == nil {
					return
				}
				z := html.NewTokenizer(strings.NewReader(res.HTMLContent))
				for z.Next() != html.ErrorToken {
					tok := z.Token()
					for _, a := range tok.Attr {
						if a.Key == "class" && a.Val != "page" {
							t.Fail("<%s> keeps class=%q: %s", tok.Data, a.Val, short(res.HTMLContent))
						}
						for _, b := range c13Attrs[:14] {
							if a.Key == b.name && b.gone(tok.Data) {
								t.Fail("<%s> keeps %s: %s", tok.Data, a.Key, short(res.HTMLContent))
							}
						}
					}
				}
				t.State(src)
			}})
			// svg is left alone
			fs = append(fs, Family{Name: "svg", N: size(na, na, 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				a, b, pos := pick(d, c13Attrs), pick(d, c13Attrs), d.n(3)
				if a.name == b.name {
					return
				}
				at := fmt.Sprintf(`data-k="1" %s="%s" %s="%s"`, a.name, a.val, b.name, b.val)
				m := []string{`<svg ` + at + `><g></g></svg>`, `<svg><g ` + at + `></g></svg>`, `<svg><g><path ` + at + `></path></g></svg>`}[pos]
				src, _ := c13Page(0, c13Places[0], "<p>lead "+m+" tail</p>")
				t.Begin("%s", src)
				res := t.MustParse(src, docURI)
				if res == nil {
					return
				}
				if !strings.Contains(res.HTMLContent, `data-k="1"`) {
					t.Fail("the svg is gone: %s", short(res.HTMLContent))
					return
				}
				for _, x := range []c13Attr{a, b} {
					if !strings.Contains(res.HTMLContent, fmt.Sprintf(` %s="%s"`, x.name, x.val)) {
						t.Fail("the svg lost %s: %s", x.name, short(res.HTMLContent))
					}
				}
				t.State(src)
			}})
			// classes
			names := []string{"page", "keep", "other", "keepx", "KEEP", "caption"}
			lists := []struct {
				opts []readability.Option
				keep []string
			}{
				{nil, nil},
				{[]readability.Option{readability.ClassesToPreserve("keep")}, []string{"keep"}},
				{[]readability.Option{readability.ClassesToPreserve("other", "keep")}, []string{"keep", "other"}},
				{[]readability.Option{readability.ClassesToPreserve("caption"), readability.ClassesToPreserve("keep")}, []string{"keep", "caption"}},
				{[]readability.Option{readability.ClassesToPreserve()}, nil},
				{[]readability.Option{readability.ClassesToPreserve("KEEP", "")}, []string{"KEEP"}},
				{[]readability.Option{readability.ClassesToPreserve("nosuch")}, nil},
			}
			seps := []string{" ", "  ", "\n\t"}
			fs = append(fs, Family{Name: "classes", N: seqCount(len(names), 0, 3) * size(len(lists), 2, len(seps), ne), Quick: seqCount(len(names), 0, 2)*size(len(lists), 2, len(seps), ne) + 40000, Run: func(t *T, i uint64) {
				d := &dec{i}
				l, kc, sep, e := pick(d, lists), d.b(), pick(d, seps), pick(d, c13Elems)
				var cl, want []string
				for _, k := range seqAt(d.i, len(names), 0, 3) {
					cl = append(cl, names[k])
					ok := names[k] == "page" || kc
					for _, x := range l.keep {
						ok = ok || x == names[k]
					}
					if ok {
						want = append(want, names[k])
					}
				}
				raw := strings.Join(cl, sep)
				src, _ := c13Page(int(i%2)*3, c13Places[0], strings.Replace(e.markup, "ATTR", fmt.Sprintf(`class="%s"`, raw), 1))
				t.Begin("keep=%v preserve=%v %s", kc, l.keep, src)
				res := t.MustParse(src, docURI, append([]readability.Option{readability.KeepClasses(kc)}, l.opts...)...)
				if res == nil {
					return
				}
				n := byAttr(parseOut(res.HTMLContent), "data-k", "1")
				if n == nil {
					return
				}
				t.State(src, fmt.Sprint(kc, l.keep))
				got, ok := attrOf(n, "class")
				if squash(got) != strings.Join(want, " ") {
					t.Fail("class %q, preserved %v, keep all %v: got %q", raw, l.keep, kc, got)
				}
				if ok && got == "" && raw != "" {
					t.Fail("an empty class attribute is left: %s", short(res.HTMLContent))
				}
				t.Outcome(got)
			}})
			// nested elements: classes at every level
			fs = append(fs, Family{Name: "classes-nested", N: size(6, 6, 6, len(lists), 2), Run: func(t *T, i uint64) {
				d := &dec{i}
				a, b, c, l, kc := pick(d, names), pick(d, names), pick(d, names), pick(d, lists), d.b()
				m := fmt.Sprintf(`<blockquote data-k="1" class="%s"><p data-k="2" class="%s">Some, words <b data-k="3" class="%s x">and more</b></p><p>Other words</p></blockquote>`, a, b, c)
				src, _ := c13Page(0, c13Places[1], m)
				t.Begin("keep=%v preserve=%v %s", kc, l.keep, src)
				res := t.MustParse(src, docURI, append([]readability.Option{readability.KeepClasses(kc)}, l.opts...)...)
				if res == nil {
					return
				}
				root := parseOut(res.HTMLContent)
				for k, cl := range [][]string{{a}, {b}, {c, "x"}} {
					var want []string
					for _, x := range cl {
						ok := kc || x == "page"
						for _, y := range l.keep {
							ok = ok || x == y
						}
						if ok {
							want = append(want, x)
						}
					}
					n := byAttr(root, "data-k", fmt.Sprint(k+1))
					if n == nil {
						t.Fail("element %d is gone: %s", k+1, short(res.HTMLContent))
						return
					}
					if got, _ := attrOf(n, "class"); squash(got) != strings.Join(want, " ") {
						t.Fail("level %d: class %v, preserved %v, keep all %v: got %q", k, cl, l.keep, kc, got)
					}
				}
				t.State(src, fmt.Sprint(kc, l.keep))
			}})
			return fs
		},
	})
}
