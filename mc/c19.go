package main

import (
	"fmt"
	"strings"

	"golang.org/x/net/html"
)

// C19: chains of line breaks become paragraphs, against a grouping model.

type c19Sym struct {
	markup string // W stands for the words
	kind   byte   // t text or inline, b br, s blank, B block, i image
	long   bool
}

var c19Core = []c19Sym{{"W", 't', true}, {"<br/>", 'b', false}, {" ", 's', false}, {"<em>W</em>", 't', false}, {"<p>W</p>", 'B', true}}
var c19More = []c19Sym{
	{"<br/>", 'b', false}, {"W", 't', true}, {"\n\t", 's', false}, {"<p>W</p>", 'B', true}, {"<!-- c -->", 's', false}, {"\u00a0", 's', false}, {"<a href=\"http://h.example/x\">W</a>", 't', false}, {"<img src=\"http://h.example/i.png\"/>", 'i', false}, {"<h2>W</h2>", 'B', false}, {"<div>W</div>", 'B', true}, {"<hr/>", 'h', false}, {"<blockquote>W</blockquote>", 'B', true}, {"<code>W</code>", 't', false}, {"<strong><i>W</i></strong>", 't', false}, {"<ul><li>W</li></ul>", 'B', true}, {"<pre>W</pre>", 'B', true}, {"<br class=\"x\"/>", 'b', false}, {"<span>W</span>", 't', false},
}

// places of the sequence: X; the flag tells whether loose text of it stands by itself
var c19Places = []string{
	"<div><p>PROSE1</p>X<p>PROSE2</p></div>",
	"<div><p>PROSE1</p><div>X</div><p>PROSE2</p></div>",
	"<div><p>PROSE1</p><p>X</p><p>PROSE2</p></div>",
	"<div><p>PROSE1</p><blockquote>X</blockquote><p>PROSE2</p></div>",
	"<article><p>PROSE1</p><section>X</section><p>PROSE2</p></article>",
	"<div>X<p>PROSE1</p><p>PROSE2</p></div>",
	"<div><p>PROSE1</p><p>PROSE2</p>X</div>",
	"<div>PROSE1<br/><br/>X<br/><br/>PROSE2</div>",
	"<div><p>PROSE1</p><ul><li>X</li><li>PROSE3</li></ul><p>PROSE2</p></div>",
	"<p>PROSE1</p>X<p>PROSE2</p>",
}

func c19Words(j int, long bool) string {
	if j >= 26 {
		return prose(fmt.Sprintf("w%c%c", 'a'+j/26, 'a'+j%26), 12)
	}
	if long {
		return prose(fmt.Sprintf("w%c", 'a'+j), 70)
	}
	return prose(fmt.Sprintf("w%c", 'a'+j), 30)
}

// c19Model groups the symbols: breaks chains and blocks end a group, blanks and
// single breaks at the ends of a group do not count.
func c19Model(seq []c19Sym) [][]string {
	var groups [][]string
	var cur []string
	flush := func() {
		for len(cur) > 0 && cur[0] == "br" {
			cur = cur[1:]
		}
		for len(cur) > 0 && cur[len(cur)-1] == "br" {
			cur = cur[:len(cur)-1]
		}
		if len(cur) > 0 {
			groups = append(groups, cur)
		}
		cur = nil
	}
	for j := 0; j < len(seq); j++ {
		s := seq[j]
		switch s.kind {
		case 't':
			cur = append(cur, wordsOf(c19Words(j, s.long))...)
		case 'i':
			cur = append(cur, "img")
		case 'b':
			n := 1
			k := j + 1
			for k < len(seq) && (seq[k].kind == 'b' || seq[k].kind == 's') {
				if seq[k].kind == 'b' {
					n++
				}
				k++
			}
			if n > 1 {
				flush()
			} else {
				cur = append(cur, "br")
			}
			j = k - 1
		case 'B':
			flush()
			groups = append(groups, wordsOf(c19Words(j, s.long)))
		case 'h':
			flush()
		}
	}
	flush()
	return groups
}

var c19Inline = map[string]bool{"em": true, "a": true, "code": true, "strong": true, "i": true, "span": true, "b": true,
	"abbr": true, "bdo": true, "cite": true, "data": true, "dfn": true, "kbd": true, "label": true, "mark": true, "q": true, "samp": true, "small": true, "sub": true, "sup": true, "time": true, "var": true, "del": true, "ins": true}

// names of the elements which are phrases of a paragraph, and shapes of their content
var c19Names = []string{"abbr", "b", "bdo", "cite", "code", "data", "dfn", "em", "i", "kbd", "label", "mark", "q", "samp", "small", "span", "strong", "sub", "sup", "time", "var", "a", "del", "ins"}
var c19Shapes = []string{"<X>W</X>", "<X><b>W</b></X>", "<b><X>W</X></b>", "<X><X>W</X></X>", "<X><i><em>W</em></i></X>"}

// c19Groups reads the groups off the content.
func c19Groups(root *html.Node) [][]string {
	var groups [][]string
	var cur []string
	flush := func() {
		for len(cur) > 0 && cur[0] == "br" {
			cur = cur[1:]
		}
		for len(cur) > 0 && cur[len(cur)-1] == "br" {
			cur = cur[:len(cur)-1]
		}
		if len(cur) > 0 {
			groups = append(groups, cur)
		}
		cur = nil
	}
	var visit func(n *html.Node)
	visit = func(n *html.Node) {
		switch {
		case n.Type == html.TextNode:
			cur = append(cur, wordsOf(n.Data)...)
		case n.Type != html.ElementNode:
		case n.Data == "br":
			cur = append(cur, "br")
		case n.Data == "img":
			cur = append(cur, "img")
		case c19Inline[n.Data]:
			for c := n.FirstChild; c != nil; c = c.NextSibling {
				visit(c)
			}
		default:
			flush()
			for c := n.FirstChild; c != nil; c = c.NextSibling {
				visit(c)
			}
			flush()
		}
	}
	visit(root)
	flush()
	return groups
}

func c19Run(t *T, place string, seq []c19Sym) {
	var b strings.Builder
	for j, s := range seq {
		b.WriteString(strings.ReplaceAll(s.markup, "W", c19Words(j, s.long)))
		// neighbouring texts are words of one text
		if s.kind == 't' && j+1 < len(seq) && seq[j+1].kind == 't' {
			b.WriteString(" ")
		}
	}
	n := 260
	if len(seq) > 8 { // the text around it has to outweigh it
		n = 3000
	}
	body := strings.NewReplacer("PROSE1", prose("fst", n), "PROSE2", prose("snd", n), "PROSE3", prose("thd", 80), "X", b.String()).Replace(place)
	src := page("", body)
	t.Begin("%s", src)
	res := t.MustParse(src, docURI)
	if res == nil {
		return
	}
	t.State(src)
	t.Trace()
	all := c19Groups(parseOut(res.HTMLContent))
	want := [][]string{}
	fst, snd, thd := wordsOf(prose("fst", n)), wordsOf(prose("snd", n)), wordsOf(prose("thd", 80))
	m := c19Model(seq)
	switch {
	case strings.HasPrefix(place, "<div>X"):
		want = append(append(append(want, m...), fst), snd)
	case strings.HasSuffix(place, "X</div>"):
		want = append(append(append(want, fst), snd), m...)
	case strings.Contains(place, "PROSE3"):
		want = append(append(append(append(want, fst), m...), thd), snd)
	default:
		want = append(append(append(want, fst), m...), snd)
	}
	t.Outcome(fmt.Sprint(want))
	g, w := fmt.Sprint(all), fmt.Sprint(want)
	if g != w {
		t.Fail("groups of the content\n got %s\nwant %s\n%s", c19Short(all), c19Short(want), short(res.HTMLContent))
		return
	}
	// a new paragraph is a p, with nothing but inline content in it
	if strings.Contains(res.HTMLContent, "<p></p>") {
		t.Fail("an empty paragraph is left: %s", short(res.HTMLContent))
	}
	if depth := c19Nested(res.HTMLContent); depth != "" {
		t.Fail("a paragraph holds %s: %s", depth, short(res.HTMLContent))
	}
}

// c19Nested finds a paragraph or another block written inside of a paragraph.
func c19Nested(m string) string {
	open := 0
	for _, x := range strings.Split(m, "<")[1:] {
		name := x[:strings.IndexAny(x, " >/")+1]
		switch {
		case strings.HasPrefix(x, "p>") || strings.HasPrefix(x, "p "):
			if open > 0 {
				return "a paragraph"
			}
			open++
		case strings.HasPrefix(x, "/p>"):
			open--
		case open > 0 && (name == "div>" || name == "ul>" || name == "h2>" || name == "blockquote>" || name == "pre>"):
			return "a block"
		}
	}
	return ""
}

func c19Short(gs [][]string) string {
	var out []string
	for _, g := range gs {
		var l []string
		for i, w := range g {
			if i > 0 && w != "br" && w != "img" && g[i-1] != "br" && g[i-1] != "img" && len(w) > 1 && strings.HasPrefix(g[i-1], w[:2]) {
				continue
			}
			l = append(l, w)
		}
		out = append(out, strings.Join(l, " "))
	}
	return "[" + strings.Join(out, "] [") + "]"
}

func init() {
	register(&Prop{ID: "C19", Level: "model_checking",
		Rule: "every sequence of up to 6 (quick) or 7 (thorough) symbols over text, inline elements, blanks, line breaks and paragraphs, and of up to 3 (4) over 18 symbols, in 10 places, every phrasing element in 5 shapes and 8 patterns there, against the grouping model; non-trivial: a distinct page whose groups were compared",
		Families: func(tier string) []Family {
			var fs []Family
			L, L2 := 6, 3
			if tier == "thorough" {
				L, L2 = 7, 4
			}
			mk := func(name string, syms []c19Sym, l int) Family {
				n := seqCount(len(syms), 1, l)
				return Family{Name: name, N: n * uint64(len(c19Places)), Run: func(t *T, i uint64) {
					d := &dec{i}
					pl := d.n(len(c19Places))
					var seq []c19Sym
					blocks, links := false, false
					for _, k := range seqAt(d.i, len(syms), 1, l) {
						seq = append(seq, syms[k])
						links = links || strings.HasPrefix(syms[k].markup, "<a ") || syms[k].kind == 'i' || strings.HasPrefix(syms[k].markup, "<h")
						blocks = blocks || syms[k].kind == 'B' || syms[k].kind == 'h'
					}
					if links && (pl == 1 || pl == 2 || pl == 3 || pl == 4 || pl == 8) {
						return // a block of links, images or headings may be dropped as such
					}
					if pl == 2 && blocks {
						return // blocks do not belong in a paragraph
					}
					c19Run(t, c19Places[pl], seq)
				}}
			}
			fs = append(fs, mk("core", c19Core, L), mk("more", c19More, L2))
			// every kind of blank between the breaks of a chain
			nbl := 2
			if tier == "thorough" {
				nbl = len(c19Places)
			}
			bl := []string{"", " ", "\n\t", "\u00a0", "&#160;", "\u3000", " \u00a0\n", "<!-- c -->", "&#32;"}
			fs = append(fs, Family{Name: "blanks", N: size(nbl, len(bl), len(bl), len(bl), len(bl), 2, 2), Run: func(t *T, i uint64) {
				d := &dec{i}
				pl := d.n(nbl)
				sp := func() c19Sym { return c19Sym{pick(d, bl), 's', false} }
				br := c19Sym{"<br/>", 'b', false}
				seq := []c19Sym{{"W", 't', true}, sp(), br, sp(), br, sp()}
				if d.b() {
					seq = append(seq, br)
				}
				seq = append(seq, sp())
				if d.b() {
					seq = append(seq, c19Sym{"<em>W</em>", 't', false})
				} else {
					seq = append(seq, c19Sym{"W", 't', true})
				}
				c19Run(t, c19Places[pl], seq)
			}})
			// every phrasing element, by itself and nested, after, between and before the breaks
			pats := []string{"tbbn", "tbbnt", "tbbtn", "nbbt", "tbbnbbt", "tbnbbt", "tbbnbn", "tsbbsns"}
			fs = append(fs, Family{Name: "inline-names", N: size(len(c19Places), len(c19Names), len(c19Shapes), len(pats)), Run: func(t *T, i uint64) {
				d := &dec{i}
				pl, name, shape, pat := d.n(len(c19Places)), pick(d, c19Names), pick(d, c19Shapes), pick(d, pats)
				if name == "a" && (pl == 1 || pl == 2 || pl == 3 || pl == 4 || pl == 8 || shape == "<X><X>W</X></X>") {
					return
				}
				open := name
				if name == "a" {
					open = "a href=\"http://h.example/x\""
				}
				el := strings.NewReplacer("</X>", "</"+name+">", "<X>", "<"+open+">").Replace(shape)
				var seq []c19Sym
				for _, c := range pat {
					switch c {
					case 't':
						seq = append(seq, c19Sym{"W", 't', true})
					case 'b':
						seq = append(seq, c19Sym{"<br/>", 'b', false})
					case 's':
						seq = append(seq, c19Sym{" ", 's', false})
					case 'n':
						seq = append(seq, c19Sym{el, 't', false})
					}
				}
				c19Run(t, c19Places[pl], seq)
			}})
			// long runs of inline content, of breaks, and many chains
			long := []string{"w", "<em>W</em>", "<em>W</em> ", "W <b>W</b> ", "<span><i>W</i></span> "}
			fs = append(fs, Family{Name: "long", N: size(len(c19Places), len(long), 4, 48), Run: func(t *T, i uint64) {
				d := &dec{i}
				pl, x, kind, n := d.n(len(c19Places)), pick(d, long), d.n(4), 1+d.n(48)
				br, w := c19Sym{"<br/>", 'b', false}, c19Sym{"W", 't', true}
				seq := []c19Sym{w, br, br}
				item := func() {
					switch x {
					case "w":
						seq = append(seq, c19Sym{"W", 't', false})
					case "<em>W</em>":
						seq = append(seq, c19Sym{x, 't', false})
					case "<em>W</em> ":
						seq = append(seq, c19Sym{"<em>W</em>", 't', false}, c19Sym{" ", 's', false})
					case "W <b>W</b> ":
						seq = append(seq, c19Sym{"W", 't', false}, c19Sym{" ", 's', false}, c19Sym{"<b>W</b>", 't', false}, c19Sym{" ", 's', false})
					default:
						seq = append(seq, c19Sym{"<span><i>W</i></span>", 't', false}, c19Sym{" ", 's', false})
					}
				}
				switch kind {
				case 0: // one long paragraph
					for k := 0; k < n; k++ {
						item()
					}
				case 1: // with single breaks inside of it
					for k := 0; k < n; k++ {
						item()
						if k%4 == 3 && k < n-1 {
							seq = append(seq, br)
						}
					}
				case 2: // one long chain
					for k := 0; k < n; k++ {
						seq = append(seq, br)
						if k%3 == 2 {
							seq = append(seq, c19Sym{" ", 's', false})
						}
					}
					item()
				case 3: // many chains
					for k := 0; k < n; k++ {
						item()
						seq = append(seq, br, br)
					}
					item()
				}
				c19Run(t, c19Places[pl], seq)
			}})
			return fs
		},
	})
}
