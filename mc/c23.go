package main

import (
	"fmt"
	"strings"

	"golang.org/x/net/html"
)

// C23: data tables survive, layout tables are treated as layout.

// c23Table is a table of the model. Cells are numbered by the renderer.
type c23Table struct {
	attrs   string
	role    string
	noData  bool // datatable="0"
	summary bool
	caption int      // 0 none, 1 empty, 2 text, 3 element, 4 blank
	capPos  int      // of the caption: 0 first, 1 within the rows, 2 last, 3 in a row
	parts   []string // of col, colgroup, thead, tfoot, th
	rows    [][]int  // colspans of the cells, by row
	rspan   []int    // rowspans of the rows
	tbody   bool
	nested  *c23Table // in the first cell
	kind    int       // what the cells hold: 0 links, 1 a letter each, 2 prose
	name    string
	length  int // of the prose of a cell, 30 if not given
}

func c23Grid(r, c int) [][]int {
	rows := make([][]int, r)
	for i := range rows {
		rows[i] = make([]int, c)
	}
	return rows
}

func (tb *c23Table) has(p string) bool {
	for _, x := range tb.parts {
		if x == p {
			return true
		}
	}
	return tb.nested != nil && tb.nested.has(p)
}

// noMark: the table is data by its size alone, if at all.
func (tb *c23Table) noMark() bool {
	return !tb.summary && tb.caption < 2 && len(tb.parts) == 0
}

// closeTags closes the elements that the markup leaves open.
func closeTags(m string) string {
	var open []string
	for _, x := range strings.Split(m, "<")[1:] {
		name := x[:strings.IndexAny(x, " >")]
		if strings.HasPrefix(name, "/") {
			open = open[:len(open)-1]
		} else {
			open = append(open, name)
		}
	}
	out := ""
	for i := len(open) - 1; i >= 0; i-- {
		out += "</" + open[i] + ">"
	}
	return out
}

func (tb *c23Table) firstCaption() int {
	if tb.caption != 0 {
		return tb.caption
	}
	if tb.nested != nil {
		return tb.nested.firstCaption()
	}
	return 0
}

// data is the model of being a data table.
func (tb *c23Table) data() bool {
	if tb.role == "presentation" || tb.noData {
		return false
	}
	if tb.summary || tb.firstCaption() >= 2 {
		return true
	}
	for _, p := range []string{"col", "colgroup", "thead", "tfoot", "th"} {
		if tb.has(p) {
			return true
		}
	}
	if tb.nested != nil {
		return false
	}
	rows, cols := 0, 0
	for i, r := range tb.rows {
		n := 1
		if i < len(tb.rspan) && tb.rspan[i] != 0 {
			n = tb.rspan[i]
		}
		if n >= c23NoSpan {
			n = 1
		}
		rows += n
		w := 0
		for _, s := range r {
			if s == 0 || s >= c23NoSpan {
				s = 1
			}
			w += s
		}
		cols = max(cols, w)
	}
	return rows >= 10 || cols > 4 || rows*cols > 10
}

// spans which say nothing count as one
const c23NoSpan = 1000

func c23Span(n int) string {
	if n >= c23NoSpan {
		return []string{"0", "x", ""}[n-c23NoSpan]
	}
	return fmt.Sprint(n)
}

func (tb *c23Table) render(b *strings.Builder, words *[]string) {
	b.WriteString("<table")
	if tb.role != "" {
		fmt.Fprintf(b, ` role="%s"`, tb.role)
	}
	if tb.noData {
		b.WriteString(` datatable="0"`)
	}
	if tb.summary {
		b.WriteString(` summary="what it is"`)
	}
	b.WriteString(tb.attrs + ">")
	capt := []string{"", "<caption></caption>", "<caption>capt</caption>", "<caption><b>capt</b></caption>", "<caption> </caption>"}[tb.caption]
	if tb.capPos == 0 {
		b.WriteString(capt)
	}
	own := func(p string) bool {
		for _, x := range tb.parts {
			if x == p {
				return true
			}
		}
		return false
	}
	if own("col") {
		b.WriteString("<col/>")
	}
	if own("colgroup") {
		b.WriteString("<colgroup></colgroup>")
	}
	if own("thead") {
		b.WriteString("<thead></thead>")
	}
	if tb.tbody {
		b.WriteString("<tbody>")
	}
	n := 0
	for i, r := range tb.rows {
		if i < len(tb.rspan) && tb.rspan[i] != 0 {
			fmt.Fprintf(b, `<tr rowspan="%s">`, c23Span(tb.rspan[i]))
		} else {
			b.WriteString("<tr>")
		}
		if i == 0 && own("th") {
			b.WriteString("<th>h</th>")
		}
		for _, s := range r {
			if s != 0 {
				fmt.Fprintf(b, `<td colspan="%s">`, c23Span(s))
			} else {
				b.WriteString("<td>")
			}
			w := fmt.Sprintf("%s%d", tb.name, n)
			switch tb.kind {
			case 0:
				fmt.Fprintf(b, `<a href="http://h.example/%s">%s</a>`, w, w)
			case 1:
				w = string(rune('a' + n%26))
				b.WriteString(w)
			case 2:
				w = prose(fmt.Sprintf("%s%d", tb.name, n), max(30, tb.length))
				b.WriteString(w)
			}
			*words = append(*words, w)
			if n == 0 && tb.nested != nil {
				tb.nested.render(b, new([]string))
			}
			n++
			b.WriteString("</td>")
		}
		if tb.capPos == 3 && i == len(tb.rows)-1 {
			b.WriteString(capt)
		}
		b.WriteString("</tr>")
		if tb.capPos == 1 && i == 0 {
			b.WriteString(capt)
		}
	}
	if tb.tbody {
		b.WriteString("</tbody>")
	}
	if tb.capPos == 2 {
		b.WriteString(capt)
	}
	if own("tfoot") {
		b.WriteString("<tfoot></tfoot>")
	}
	b.WriteString("</table>")
}

var c23Places = []string{
	"<div><p>PROSE1</p><p>PROSE2</p>X<p>PROSE3</p></div>",
	"<article><p>PROSE1</p><p>PROSE2</p>X<p>PROSE3</p></article>",
	"<div><p>PROSE1</p><p>PROSE2</p><p>PROSE3</p>X</div>",
	"<div><p>PROSE1</p><p>PROSE2</p><p>PROSE3</p><section>X<p>PROSE4</p></section></div>",
}

func c23Page(place, x string) string {
	return page("", strings.NewReplacer("PROSE1", prose("fst", 500), "PROSE2", prose("snd", 500), "PROSE3", prose("thd", 500), "PROSE4", prose("fth", 160), "X", x).Replace(place))
}

func c23Own(tb *html.Node, tag string) int {
	n := 0
	for _, e := range elems(tb, tag) {
		if ancestor(e, "table") == tb {
			n++
		}
	}
	return n
}

// c23Judge: the table is in the content as it was, or not at all.
func c23Judge(t *T, tb *c23Table, place string) {
	var b strings.Builder
	var words []string
	tb.render(&b, &words)
	src := c23Page(place, b.String())
	t.Begin("%s", src)
	res := t.MustParse(src, docURI)
	if res == nil {
		return
	}
	t.Trace()
	t.State(src)
	root := parseOut(res.HTMLContent)
	data := tb.data()
	keep := data || tb.kind == 2
	t.Outcome(fmt.Sprint(data, keep, words))
	for _, w := range []string{"fst", "snd", "thd"} {
		if !strings.Contains(squash(res.TextContent), prose(w, 500)) {
			t.Fail("the prose %s is not complete", w)
			return
		}
	}
	tabs := elems(root, "table")
	cells := 0
	for _, r := range tb.rows {
		cells += len(r)
	}
	if cells == 1 && tb.nested == nil {
		// a single cell is unwrapped: its words are there or not
		if got := strings.Contains(res.HTMLContent, words[0]); tb.kind != 1 && got != keep {
			t.Fail("the words of the only cell are in the content: %v, want %v (data table: %v)", got, keep, data)
		}
		return
	}
	if !keep {
		if len(tabs) > 0 {
			t.Fail("a layout table without content is kept: %s", short(res.HTMLContent))
		}
		return
	}
	if len(tabs) == 0 {
		t.Fail("the table is gone (data table: %v)", data)
		return
	}
	rows, tds := c23Own(tabs[0], "tr"), c23Own(tabs[0], "td")
	if rows != len(tb.rows) || tds != cells {
		t.Fail("the table has %d rows and %d cells, want %d and %d", rows, tds, len(tb.rows), cells)
		return
	}
	k := 0
	for _, e := range elems(tabs[0], "td") {
		if ancestor(e, "table") != tabs[0] {
			continue
		}
		if txt := squash(textOf(e)); k >= len(words) || !strings.HasPrefix(txt, words[k]) {
			t.Fail("cell %d holds %q", k, txt)
			return
		}
		k++
	}
	if tb.nested != nil {
		inner := data || tb.nested.data() || tb.nested.kind == 2
		if got := len(tabs) > 1; got != inner {
			t.Fail("the nested table is in the content: %v, want %v (outer data: %v, inner data: %v)", got, inner, data, tb.nested.data())
		}
	}
}

func init() {
	register(&Prop{ID: "C23", Level: "model_checking",
		Rule: "every grid up to 12 x 7 x cell content, every list of row widths, spans, all subsets of markings, nested tables and single cells, against a model of the data table; non-trivial: a distinct page whose table was compared",
		Families: func(tier string) []Family {
			var fs []Family
			R, C := 12, 7
			fs = append(fs, Family{Name: "grid", N: size(R, C, 3, 2, len(c23Places)), Run: func(t *T, i uint64) {
				d := &dec{i}
				r, c, kind, tbody, pl := 1+d.n(R), 1+d.n(C), d.n(3), d.b(), pick(d, c23Places)
				if kind == 1 && r*c >= 25 {
					return // enough text to be kept as it is
				}
				if kind == 2 && r*c > 6 {
					return // the table is the article then
				}
				c23Judge(t, &c23Table{rows: c23Grid(r, c), kind: kind, tbody: tbody, name: "cl"}, pl)
			}})
			// uneven rows
			L := 4
			if tier == "thorough" {
				L = 6
			}
			fs = append(fs, Family{Name: "uneven", N: seqCount(6, 1, L), Run: func(t *T, i uint64) {
				var rows [][]int
				for _, w := range seqAt(i, 6, 1, L) {
					rows = append(rows, make([]int, w+1))
				}
				c23Judge(t, &c23Table{rows: rows, name: "cl", tbody: i%2 == 0}, c23Places[0])
			}})
			// spans
			spans := []int{0, 1, 2, 3, 4, 5, 9, 10, 11, c23NoSpan, c23NoSpan + 1, c23NoSpan + 2}
			fs = append(fs, Family{Name: "spans", N: size(len(spans), len(spans), len(spans), len(spans), 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				a, b, x, y, k := pick(d, spans), pick(d, spans), pick(d, spans), pick(d, spans), d.n(3)
				tb := &c23Table{rows: c23Grid(2, 2), name: "cl", rspan: []int{a, b}}
				tb.rows[0][1], tb.rows[1][0] = x, y
				if k == 1 {
					tb.rows = [][]int{{x}, {y}}
				}
				if k == 2 {
					tb.rows, tb.rspan = [][]int{{x, y}}, []int{a}
					if b != 0 {
						return
					}
				}
				c23Judge(t, tb, c23Places[0])
			}})
			// markings
			parts := []string{"col", "colgroup", "thead", "tfoot", "th"}
			roles := []string{"", "presentation", "grid", "none", "Presentation"}
			grids := [][2]int{{2, 2}, {4, 3}, {2, 5}, {10, 1}, {1, 1}}
			mark := func(d *dec, tb *c23Table) {
				tb.role = pick(d, roles)
				tb.noData, tb.summary, tb.caption = d.b(), d.b(), d.n(5)
				for _, p := range parts {
					if d.b() {
						tb.parts = append(tb.parts, p)
					}
				}
			}
			nmark := size(len(roles), 2, 2, 5, 32)
			fs = append(fs, Family{Name: "markings", N: nmark * uint64(len(grids)), Run: func(t *T, i uint64) {
				d := &dec{i}
				tb := &c23Table{name: "cl"}
				mark(d, tb)
				g := grids[d.i]
				tb.rows = c23Grid(g[0], g[1])
				if g[0]*g[1] == 1 && (len(tb.parts) > 0 || tb.caption > 0) {
					return // not a table of one cell alone
				}
				c23Judge(t, tb, c23Places[0])
			}})
			fs = append(fs, Family{Name: "caption-place", N: size(5, 4, 2, 32, len(grids)), Run: func(t *T, i uint64) {
				d := &dec{i}
				tb := &c23Table{name: "cl", caption: d.n(5), capPos: d.n(4), tbody: d.b()}
				for _, p := range parts {
					if d.b() {
						tb.parts = append(tb.parts, p)
					}
				}
				g := grids[d.i]
				tb.rows = c23Grid(g[0], g[1])
				if g[0]*g[1] == 1 {
					return
				}
				c23Judge(t, tb, c23Places[0])
			}})
			attrs := []string{` datatable="1"`, ` datatable=""`, ` summary=""`, ` role=""`, ` class="data"`, ` border="1"`, ` datatable="00"`, ` title="x"`, ` data-table="1"`}
			fs = append(fs, Family{Name: "other-attributes", N: size(len(attrs), len(grids)), Run: func(t *T, i uint64) {
				d := &dec{i}
				a, g := pick(d, attrs), pick(d, grids)
				c23Judge(t, &c23Table{name: "cl", attrs: a, rows: c23Grid(g[0], g[1])}, c23Places[0])
			}})
			// nested: marking of the outer x marking of the inner
			few := func(d *dec, tb *c23Table) {
				switch d.n(9) {
				case 1:
					tb.role = "presentation"
				case 2:
					tb.noData = true
				case 3:
					tb.summary = true
				case 4:
					tb.caption = 2
				case 5:
					tb.parts = []string{"th"}
				case 6:
					tb.parts = []string{"colgroup"}
				case 7:
					tb.caption = 1
				case 8:
					tb.role, tb.summary = "presentation", true
				}
			}
			fs = append(fs, Family{Name: "nested", N: size(9, 9, 3, 3, 2), Run: func(t *T, i uint64) {
				d := &dec{i}
				out, in := &c23Table{name: "ou", kind: 2, length: 120}, &c23Table{name: "in"}
				few(d, out)
				few(d, in)
				g1, g2 := [][2]int{{2, 2}, {3, 2}, {1, 2}}[d.n(3)], [][2]int{{2, 2}, {4, 3}, {2, 5}}[d.n(3)]
				if d.b() {
					in.kind = 1
				}
				out.rows, in.rows = c23Grid(g1[0], g1[1]), c23Grid(g2[0], g2[1])
				out.nested = in
				c23Judge(t, out, c23Places[0])
			}})
			// fishy parts inside of a table stay if it is a data table
			fishy := []string{`<ul><li><a href="http://h.example/1">fish0</a></li></ul>`, `<div><a href="http://h.example/1">fish0</a></div>`, `<div class="sidebar-x">fish0</div>`, `<div><p>fish0</p><p>x</p></div>`, `<ol class="menu"><li>fish0</li></ol>`, `<fieldset>fish0</fieldset>`, `<form>fish0</form>`, `<table><tr><td><a href="http://h.example/1">fish0</a></td><td>x</td></tr></table>`, `<div><img src="http://h.example/a.png"/><img src="http://h.example/b.png"/>fish0</div>`}
			wrap := []string{"", "<blockquote>", "<blockquote><ul><li>", "<div><p>x</p>", "<table><tr><td>y</td><td>"}
			fs = append(fs, Family{Name: "inside", N: size(len(fishy), 9, 3, len(wrap), 9), Run: func(t *T, i uint64) {
				d := &dec{i}
				f := pick(d, fishy)
				tb := &c23Table{name: "cl", kind: 2}
				few(d, tb)
				g := [][2]int{{2, 2}, {4, 3}, {2, 5}}[d.n(3)]
				tb.rows = c23Grid(g[0], g[1])
				// however deep
				wr, depth := pick(d, wrap), d.n(9)
				if !tb.data() || (depth == 0) != (wr == "") || depth > 0 && strings.Contains(f, "class=") || (tb.noMark() && strings.Contains(f+wr, "<table")) {
					return
				}
				for ; depth > 0; depth-- {
					f = wr + f + closeTags(wr)
				}
				var b strings.Builder
				var words []string
				tb.render(&b, &words)
				x := strings.Replace(b.String(), "</td>", f+"</td>", 1)
				src := c23Page(c23Places[0], x)
				t.Begin("%s", src)
				res := t.MustParse(src, docURI, nil...)
				if res == nil {
					return
				}
				t.State(src)
				t.Trace()
				if !strings.Contains(res.TextContent, "fish0") {
					t.Fail("a part of a data table is gone: %s", short(res.HTMLContent))
				}
			}})
			// single cells
			type cell struct {
				markup string
				tag    string
			}
			cells := []cell{
				{"word0 word1 of the cell here", "p"}, {"word0 <em>word1</em> of the cell here", "p"}, {"word0<br/>word1 of the cell here", "p"}, {"<a href=\"http://h.example/\">word0</a> word1 of the cell here, some more words", "p"}, {"<p>word0 word1 of the cell here</p>", "div"}, {"<p>word0 of the cell here today</p><p>word1</p>", "div"}, {"<div>word0 word1 of the cell here</div>", "div"}, {"word0 of the cell here <div>word1</div>", "div"}, {"<ul><li>word0 word1 of the cell here</li></ul>", "div"}, {"<h3>word0 word1 of the cell here</h3>", "div"}, {" <p>word0 word1 of the cell here</p> ", "div"}, {"<blockquote>word0 word1 of the cell here</blockquote>", "div"}, {"<span>word0 <b>word1</b></span> of the cell here", "p"}, {"<pre>word0 word1 of the cell here</pre>", "div"}, {"<table><tr><td>word0 word1 of the cell here</td></tr></table>", "div"}, {"word0 <img src=\"http://h.example/i.png\"/> word1 of the cell here", "p"}, {"<a href=\"http://h.example/\"><p>word0</p></a> word1 of the cell here, some more words", "div"},
			}
			wraps := []string{"<table><tr><td>C</td></tr></table>", "<table><tbody><tr><td>C</td></tr></tbody></table>", "<table>\n<tbody>\n<tr>\n<td>C</td>\n</tr>\n</tbody>\n</table>", "<table summary=\"s\"><tr><td>C</td></tr></table>", "<table role=\"presentation\"><tbody><tr><td colspan=\"2\">C</td></tr></tbody></table>", "<table><tr><td class=\"x\" id=\"cellid\">C</td></tr></table>", "<table><tr><td>D</td></tr></table><table><tbody><tr><td>C</td></tr></tbody></table>",
				// these are not tables of a single cell
				"<table><tr><th>C</th></tr></table>", "<table><tr><td>C</td><td>other</td></tr></table>", "<table><tr><td>C</td></tr><tr><td>other</td></tr></table>", "<table><caption>capt</caption><tr><td>C</td></tr></table>", "<table><tbody><tr><td>C</td></tr></tbody><tbody></tbody></table>", "<table><tr>loose<td>C</td></tr></table>"}
			fs = append(fs, Family{Name: "single-cell", N: size(len(cells), len(wraps), len(c23Places)), Run: func(t *T, i uint64) {
				d := &dec{i}
				c, w, pl := pick(d, cells), d.n(len(wraps)), pick(d, c23Places)
				src := c23Page(pl, strings.NewReplacer("C", c.markup, "D", "another cell of this table").Replace(wraps[w]))
				t.Begin("%s", src)
				res := t.MustParse(src, docURI)
				if res == nil {
					return
				}
				t.Trace()
				t.State(src)
				root := parseOut(res.HTMLContent)
				txt := textOf(root)
				a, b := strings.Index(txt, "word0"), strings.Index(txt, "word1")
				if a < 0 || b < a || strings.Count(txt, "word0") != 1 || strings.Count(txt, "word1") != 1 {
					t.Fail("the words of the cell are not there once and in order: %s", short(res.HTMLContent))
					return
				}
				if w < 7 {
					for _, tag := range []string{"table", "tbody", "tr", "td"} {
						if len(elems(root, tag)) > 0 {
							t.Fail("a %s of a single-cell table is left: %s", tag, short(res.HTMLContent))
							return
						}
					}
					if w == 5 {
						n := byAttr(root, "id", "cellid")
						if n == nil || n.Data != c.tag {
							if n != nil || pl != c23Places[3] || c.tag == "p" {
								t.Fail("the cell became %v, want %s: %s", n, c.tag, short(res.HTMLContent))
							}
						}
					}
				} else if len(elems(root, "table")) == 0 {
					t.Fail("a table of more than a single cell is gone: %s", short(res.HTMLContent))
				}
			}})
			return fs
		},
	})
}
