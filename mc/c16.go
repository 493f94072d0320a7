package main

import (
	"fmt"
	"html"
	"strings"

	xhtml "golang.org/x/net/html"

	readability "github.com/giulianopz/go-readability"
)

// C16: text and attribute values survive the round trip through markup.

var c16Text = []string{
	"a", " ", "&amp;", "&lt;", "&gt;", "&quot;", "&#39;", "&apos;", "&#65;", "&#x42;", "&#x1F600;", "&#169;", "&#X6f22;", "lt;", "amp;", "#65;", "&", "& ", "&zz;", "&;", "&#;", "&#xZ;", ">", "\"", "'", "é漢", "😀", "< ", "<3", "-->", "]]>", "\u00a0", ";", "b&c", "&eacute;", "&nbsp;", "&rsquo;", "&copy", "&NotEqualTilde;", "&Eacute;",
}

var c16TextSmall = []string{"a", " ", "&amp;", "&lt;", "lt;", "amp;", "&#38;", "&#x3c;", "&", "< ", ">", "#60;", "\"", "'", "é"}

// pieces of a title, a byline and an excerpt: no separators, no blanks
var c16Fields = []string{"a", "&amp;", "&lt;", "&quot;", "&#39;", "&#65;", "&#x1F600;", "lt;", "&", "&zz;", "'", "é漢", "&eacute;", "&copy", "&NotEqualTilde;", "&rsquo;", "&ensp;", "#60;"}

// contexts: X is the text, which comes first in its element; Q9 ends it
var c16Ctx = []string{
	`<p data-k="1">X<b>Q9</b></p>`, `<pre data-k="1">X<b>Q9</b></pre>`, `<ul><li data-k="1">X<b>Q9</b></li><li>two</li></ul>`, `<table><caption>c</caption><tr><td data-k="1">X<b>Q9</b></td><td>two</td></tr></table>`, `<h2 data-k="1">X<b>Q9</b></h2>`, `<p>lead <span data-k="1">X<b>Q9</b></span></p>`, `<p>lead <a href="/x" data-k="1">X<b>Q9</b></a></p>`, `<blockquote><p data-k="1">X<b>Q9</b></p></blockquote>`, `<p>lead <code data-k="1">X<b>Q9</b></code></p>`,
}

func c16Judge(t *T, ctx, raw, want string, opts ...readability.Option) {
	src := page("<title>t</title>", "<div><p>"+prose("aa", 300)+"</p>"+strings.Replace(ctx, "X", raw, 1)+"<p>"+prose("bb", 300)+"</p></div>")
	t.Begin("%s", src)
	res := t.MustParse(src, docURI, opts...)
	if res == nil {
		return
	}
	want += "Q9"
	t.Trace()
	n := byAttr(parseOut(res.HTMLContent), "data-k", "1")
	if n == nil {
		t.Fail("the element is not in the content: %s", short(res.HTMLContent))
		return
	}
	if got := textOf(n); got != want && !(n.Data == "pre" && "\n"+got == want) {
		t.Fail("a reader of the content gets %q, want %q: %s", got, want, short(res.HTMLContent))
		return
	}
	if !strings.Contains(res.TextContent, want) {
		i := strings.Index(res.TextContent, "Q9")
		if i < 0 {
			i = 0
		}
		lo := i - 40
		if lo < 0 {
			lo = 0
		}
		t.Fail("the text does not have %q: ...%q...", want, res.TextContent[lo:i])
		return
	}
	t.State(src)
	t.Outcome(want)
}

func init() {
	register(&Prop{ID: "C16", Level: "exploration",
		Rule: "every sequence of up to 3 (thorough: 4) pieces over 41 (and up to 5/6 over 15) references, special characters and near misses, as text in 10 elements and as attribute value; the content is re-read by a conforming HTML reader; non-trivial: a distinct page whose text was compared",
		Families: func(tier string) []Family {
			var fs []Family
			add := func(name string, alpha []string, l, nctx int) {
				fs = append(fs, Family{Name: name, N: seqCount(len(alpha), 1, l) * uint64(nctx), Run: func(t *T, i uint64) {
					d := &dec{i}
					ctx := c16Ctx[d.n(nctx)]
					var b strings.Builder
					for _, k := range seqAt(d.i, len(alpha), 1, l) {
						b.WriteString(alpha[k])
					}
					c16Judge(t, ctx, b.String(), html.UnescapeString(b.String()))
				}})
			}
			if tier == "thorough" {
				add("text", c16Text, 4, 2)
				add("text-contexts", c16Text, 3, len(c16Ctx))
				add("text-small", c16TextSmall, 5, 2)
			} else {
				add("text", c16Text, 3, 2)
				add("text-contexts", c16Text, 2, len(c16Ctx))
				add("text-small", c16TextSmall, 4, 2)
			}
			// every decimal and hexadecimal reference of a range of code points
			max := 0x3000
			if tier == "thorough" {
				max = 0x20000
			}
			// and the edges of all planes
			var points []int
			for c := 0; c < max; c++ {
				points = append(points, c)
			}
			for p := 0; p <= 16; p++ {
				for _, c := range []int{0, 1, 2, 0xff, 0x100, 0x3000, 0x7fff, 0x8000, 0xd7ff, 0xe000, 0xfeff, 0xfff9, 0xfffc, 0xfffd, 0xfffe, 0xffff} {
					if c += p << 16; c >= max {
						points = append(points, c)
					}
				}
			}
			fs = append(fs, Family{Name: "code-points", N: size(len(points), 5), Run: func(t *T, i uint64) {
				d := &dec{i}
				f := d.n(5)
				c := pick(d, points)
				if c < 0xa0 && (c < 32 || c > 126) || c >= 0xd800 && c < 0xe000 {
					return // controls and surrogates: what they become is not stated
				}
				raw := []string{fmt.Sprintf("&#%d;", c), fmt.Sprintf("&#x%x;", c), fmt.Sprintf("&#X%04X;", c), fmt.Sprintf("&#%012d;", c), fmt.Sprintf("&#x00%06x;", c)}[f]
				c16Judge(t, c16Ctx[0], "x"+raw+"y", "x"+string(rune(c))+"y")
			}})
			// the characters themselves
			fs = append(fs, Family{Name: "characters", N: size(len(points), 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				f, c := d.n(3), pick(d, points)
				if c < 0xa0 && (c < 32 || c > 126) || c >= 0xd800 && c < 0xe000 || c == '<' || c == '&' {
					return
				}
				// as text, in a CDATA section, in a link which is taken apart
				ctx := []string{c16Ctx[0], `<p data-k="1"><![CDATA[X]]><b>Q9</b></p>`, `<p data-k="1"><a href="javascript:void(0)">X</a><b>Q9</b></p>`}[f]
				c16Judge(t, ctx, "x"+string(rune(c))+"y", "x"+string(rune(c))+"y")
			}})
			fs = append(fs, Family{Name: "cdata", N: seqCount(len(c16TextSmall), 1, 3) * 2, Run: func(t *T, i uint64) {
				d := &dec{i}
				ctx := c16Ctx[d.n(2)]
				var b strings.Builder
				for _, k := range seqAt(d.i, len(c16TextSmall), 1, 3) {
					b.WriteString(c16TextSmall[k])
				}
				c16Judge(t, ctx, "<![CDATA["+b.String()+"]]>", b.String())
			}})
			// where else a reader meets the text of the page
			fs = append(fs, Family{Name: "fields", N: seqCount(len(c16Fields), 1, 4) * 3, Quick: seqCount(len(c16Fields), 1, 3) * 3, Run: func(t *T, i uint64) {
				d := &dec{i}
				f := d.n(3)
				var b strings.Builder
				for _, k := range seqAt(d.i, len(c16Fields), 1, 4) {
					b.WriteString(c16Fields[k])
				}
				raw := "one two " + b.String() + " three four"
				want := html.UnescapeString(raw)
				title, by, first := "some title of it", "", "<p>"+prose("aa", 300)+"</p>"
				switch f {
				case 0:
					if title = raw; refDecode(want) != want {
						return // a title is decoded again, as metadata are (C10)
					}
				case 1:
					by = `<p class="byline">` + raw + `</p>`
				case 2:
					first = "<p>" + raw + "</p>"
				}
				src := page("<title>"+title+"</title>", "<div>"+by+first+"<p>"+prose("bb", 300)+"</p><p>"+prose("cc", 300)+"</p></div>")
				t.Begin("%s", src)
				res := t.MustParse(src, docURI)
				if res == nil {
					return
				}
				t.Trace()
				if got := []string{res.Title, res.Byline, res.Excerpt}[f]; got != want {
					t.Fail("the %s is %q, want %q", []string{"title", "byline", "excerpt"}[f], got, want)
					return
				}
				t.State(src)
				t.Outcome(want)
			}})
			// attribute values
			attrs := []string{"a", " ", "&amp;", "&lt;", "&gt;", "&quot;", "&#39;", "&#65;", "&#x1F600;", "amp;", "lt;", "quot;", "&", "& ", "&zz;", "<", ">", "<b>", "é漢", "=", "/", "&eacute;", "&nbsp;", "Q", "</p>", "-->", "`"}
			actx := []string{`<p data-k="1" title=X>lead <b>Q9</b></p>`, `<p>lead <img data-k="1" src="/i.png" title=X/> <b>Q9</b></p>`, `<p>lead <span title=X data-k="1">x</span><b>Q9</b></p>`, `<ul title=X data-k="1"><li>one</li><li>two</li></ul>`}
			l := 3
			if tier == "thorough" {
				l = 4
			}
			fs = append(fs, Family{Name: "attributes", N: seqCount(len(attrs), 1, l) * 2 * uint64(len(actx)), Run: func(t *T, i uint64) {
				d := &dec{i}
				q, ctx := d.n(2), pick(d, actx)
				var b strings.Builder
				for _, k := range seqAt(d.i, len(attrs), 1, l) {
					if attrs[k] == "Q" {
						b.WriteString([]string{"'", `"`}[q])
					} else {
						b.WriteString(attrs[k])
					}
				}
				raw := b.String()
				quote := []string{`"`, "'"}[q]
				src := page("<title>t</title>", "<div><p>"+prose("aa", 300)+"</p>"+strings.Replace(ctx, "X", quote+raw+quote, 1)+"<p>"+prose("bb", 300)+"</p></div>")
				t.Begin("%s", src)
				res := t.MustParse(src, docURI)
				if res == nil {
					return
				}
				n := byAttr(parseOut(res.HTMLContent), "data-k", "1")
				if n == nil {
					t.Fail("the element is not in the content: %s", short(res.HTMLContent))
					return
				}
				want := html.UnescapeString(raw)
				got, _ := attrOf(n, "title")
				t.Trace()
				if got != want {
					t.Fail("attribute %q: got %q, want %q: %s", raw, got, want, short(res.HTMLContent))
					return
				}
				t.State(src)
				t.Outcome(want)
			}})
			// attributes of every spelling: a reader of the content finds those which a reader of the page finds
			odd := []string{`title="one"`, `title="two"`, `TITLE=three`, `title`, `data-x`, `data-x=a&amp;b`, `data-x='q"q'`, `data-x="q'q"`, `x"y="1"`, `a<b="2"`, `=c`, `'d'`, "`e`", `data-é="ü"`, `f="1"g="2"`, `h = "3"`, `on:click="x"`, `:bind="y"`, `@at="z"`, `data-x=a/`, `/`, `id="i1"`, `id="i2"`, `lang=""`, `lang="en"`, "i=\n\"5\"", `j="&lt;"`, `k=&quot;l`, `m=<n`, `o=p'q`, `r="s>t"`, `xlink:u="v"`, `viewBox="w"`}
			lo := 2
			if tier == "thorough" {
				lo = 3
			}
			fs = append(fs, Family{Name: "spellings", N: seqCount(len(odd), 1, lo) * uint64(len(actx)) * 2, Run: func(t *T, i uint64) {
				d := &dec{i}
				ctx, opts := pick(d, actx), []readability.Option{}
				if d.b() { // written and read again before it is used
					opts = append(opts, readability.CharThreshold(100000))
				}
				var l []string
				for _, k := range seqAt(d.i, len(odd), 1, lo) {
					l = append(l, odd[k])
				}
				src := page("<title>t</title>", "<div><p>"+prose("aa", 300)+"</p>"+strings.Replace(ctx, "title=X", strings.Join(l, " ")+" ", 1)+"<p>"+prose("bb", 300)+"</p></div>")
				t.Begin("%s", src)
				want := attrMap(byAttr(parseOut(src), "data-k", "1"))
				res := t.MustParse(src, docURI, opts...)
				if res == nil {
					return
				}
				n := byAttr(parseOut(res.HTMLContent), "data-k", "1")
				if n == nil {
					t.Fail("the element is not in the content: %s", short(res.HTMLContent))
					return
				}
				got := attrMap(n)
				delete(got, "src")
				delete(want, "src")
				t.Trace()
				if fmt.Sprint(got) != fmt.Sprint(want) {
					t.Fail("the attributes are %q, want %q: %s", got, want, short(res.HTMLContent))
					return
				}
				t.State(src)
				t.Outcome(fmt.Sprint(want))
			}})
			return fs
		},
		Assume: []string{"the meaning of a character reference is that of html.UnescapeString of the Go library", "golang.org/x/net/html reads the content as a browser would"},
	})
}

// attrMap is what a browser makes of the attributes of an element: the first of a name counts.
func attrMap(n *xhtml.Node) map[string]string {
	m := map[string]string{}
	if n != nil {
		for _, a := range n.Attr {
			if _, dup := m[a.Key]; !dup {
				m[a.Key] = a.Val
			}
		}
	}
	return m
}
