package main

import (
	"strings"

	readability "github.com/giulianopz/go-readability"
)

// The structure of the article: what is simplified, and that all else stays.

func c26Page(place, x string) string {
	return refPage("", strings.NewReplacer("M1", refPara("ma", 310, 6), "M2", refPara("mb", 310, 6), "X", x).Replace(place))
}

var c26Places = []string{
	"<div>M1<div>X</div>M2</div>",
	"<article>M1XM2</article>",
	"<div>M1M2<blockquote>X</blockquote></div>",
	"<div>M1<section><div>X</div><p>tail</p></section>M2</div>",
	"<div>M1<ul><li>X</li><li>second item</li></ul>M2</div>",
	"<div>M1M2</div><div>X</div>",
}

func c26Judge(t *T, place, x string) {
	thr := 500
	refJudge(t, c26Page(place, x), rOpts{threshold: thr}, readability.CharThreshold(thr))
}

// c26Titled: a page with a title and headings.
func c26Titled(t *T, title, h, spot string) {
	src := strings.Replace(c26Page("<div>"+strings.ReplaceAll(spot, "H", h)+"</div>", ""), refTitle, title, 1)
	refJudge(t, src, rOpts{threshold: 500, title: title})
}

func c26Items() []string {
	return []string{
		"wa# text", " ", "\n  ", "<b>wb#</b>", `<a href="http://h.example/#">wc#</a>`, "<br/>",
		"<p>wd# of a paragraph</p>", "<div>we# in a block</div>", "<ul><li>wf#</li><li>wg#</li></ul>",
		`<img src="http://h.example/#.png"/>`, "<span><p>wh# within</p></span>", "<del>wi#</del>", "<ins><div>wj# within</div></ins>",
		"<hr/>", "<h1>wk# heading</h1>", "<h3>wl# heading</h3>", "<font>wm#</font>", "<p></p>", "<section><p>wn# in a section</p></section>", "<i><b>wo#</b> <br/></i>",
		"<figure><img src=\"http://h.example/f#.png\"/><figcaption>wp#</figcaption></figure>", "<pre>wq#\n  kept</pre>",
	}
}

func c26Fill(s string, k int) string { return strings.ReplaceAll(s, "#", string(rune('a'+k))) }

func init() {
	register(&Prop{ID: "C26", Level: "model_checking",
		Rule: "every arrangement of the enumerated grammars (sequences of inline and block items, chains of wrappers, empty elements, element names, headings, single-cell tables) within an article, against the reference model of the simplifications: exact content; non-trivial: a distinct page with a content",
		Families: func(tier string) []Family {
			thorough := tier == "thorough"
			var fs []Family
			items := c26Items()
			places := c26Places[:2]
			if thorough {
				places = c26Places
			}
			fs = append(fs, Family{Name: "items-3", N: size(len(c26Places)) * seqCount(len(items), 1, 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				pl := pick(d, c26Places)
				x := ""
				for k, b := range seqAt(d.i, len(items), 1, 3) {
					x += c26Fill(items[b], k)
				}
				c26Judge(t, pl, x)
			}})
			core := items[:11]
			if thorough {
				core = items
			}
			fs = append(fs, Family{Name: "items-4", N: size(len(places)) * pow(len(core), 4), Run: func(t *T, i uint64) {
				d := &dec{i}
				pl := pick(d, places)
				x := ""
				for k := 0; k < 4; k++ {
					x += c26Fill(pick(d, core), k)
				}
				c26Judge(t, pl, x)
			}})
			// the grouping of inline content, longer
			small := []string{"wa#", " ", "<b>wb#</b>", "<br/>", "<p>wd#</p>", "<div>we# <p>wf#</p></div>"}
			n6 := 5
			if thorough {
				n6 = 7
			}
			fs = append(fs, Family{Name: "inline", N: size(2) * seqCount(len(small), 4, n6), Run: func(t *T, i uint64) {
				d := &dec{i}
				pl := pick(d, c26Places[:2])
				x := ""
				for k, b := range seqAt(d.i, len(small), 4, n6) {
					x += c26Fill(small[b], k)
				}
				c26Judge(t, pl, "<div>"+x+"</div>")
			}})
			// wrappers in wrappers
			wraps := []string{"<div>X</div>", `<div id="wid#" lang="l#">X</div>`, `<div id="xreadability#">X</div>`, `<section class="txt#" title="t#">X</section>`, "<section>X</section>", "<div>\n X </div>", "<div>wx#X</div>", "<div>X<p>wy#</p></div>", "<div>X<br/></div>", "<div>X<div></div></div>", "<section>wz# of its own\n X</section>", "<section>\u00a0X</section>", "<article>X</article>", "<span>X</span>", "<blockquote>X</blockquote>", `<div dir="rtl" data-x="#">X</div>`, "<center>X</center>", "<header>X</header>"}
			inner := []string{"<p>the words of the innermost</p>", "words without a paragraph", "<p>first of</p><p>two paragraphs</p>", "<ul><li>one of</li><li>the items</li></ul>", `<img src="http://h.example/w.png"/>`, "<p>x</p><hr/>", "<div></div>", "<h2>inner heading</h2>"}
			D := 3
			if thorough {
				D = 4
			}
			fs = append(fs, Family{Name: "wrappers", N: size(3, len(inner)) * seqCount(len(wraps), 0, D), Run: func(t *T, i uint64) {
				d := &dec{i}
				pl := pick(d, []string{c26Places[0], c26Places[1], c26Places[2]})
				x := pick(d, inner)
				for k, b := range seqAt(d.i, len(wraps), 0, D) {
					x = strings.Replace(c26Fill(wraps[b], k), "X", x, 1)
				}
				c26Judge(t, pl, x)
			}})
			// what counts as empty
			shells := []string{"p", "div", "section", "header", "h1", "h2", "h3", "h4", "h5", "h6", "article", "span", "blockquote", "li", "td", "figure", "main", "b"}
			stuff := []string{"", " ", "\n\t", "\u00a0", "<br/>", "<br/><br/>", "<hr/>", "<br/><hr/>", " <br/> ", `<img src="http://h.example/s.png"/>`, "<span></span>", "<span> </span>", "<p></p>", "<div><br/></div>", "<b></b><br/>", "x", ".", "<br/>x", `<a href="http://h.example/a"></a>`, `<a name="here"></a>`, `<video src="http://h.example/v"></video>`, "<div><hr/></div><br/>", `<span><br/><br/></span><img src="http://h.example/u.png"/>`, `<b><hr/></b> <i><br/></i> <img src="http://h.example/u.png"/>`}
			stuff = append(stuff, "<wbr/>", "<br/><wbr/>", `<area alt=""/>`, "<track/>", "<svg></svg>", "<canvas></canvas>", "<i></i><b></b>", "<hr/>x", "<hr/><hr/><hr/>", "\u200b", "<time></time>")
			frames := []string{"X", "<div>X</div>", "<p>X</p>", "<section>X<p>beside</p></section>", "<div><section>X</section></div>"}
			fs = append(fs, Family{Name: "empty", N: size(len(c26Places), len(shells), len(stuff), len(frames), 2), Run: func(t *T, i uint64) {
				d := &dec{i}
				pl, sh, st, fr := pick(d, c26Places), pick(d, shells), pick(d, stuff), pick(d, frames)
				at := ""
				if d.b() {
					at = ` title="t"`
				}
				c26Judge(t, pl, strings.Replace(fr, "X", "<"+sh+at+">"+st+"</"+sh+">", 1))
			}})
			// every element name
			names := []string{"abbr", "acronym", "address", "article", "audio", "b", "bdi", "bdo", "big", "blockquote", "center", "cite", "code", "custom", "data", "datalist", "dd", "details", "dfn", "dialog", "dir", "dl", "dt", "em", "figcaption", "figure", "h1", "h2", "h3", "h4", "h5", "h6", "header", "hgroup", "i", "kbd", "label", "legend", "li", "main", "mark", "math", "meter", "nav", "ol", "optgroup", "output", "p", "pre", "progress", "q", "rp", "rt", "ruby", "s", "samp", "section", "small", "span", "strike", "strong", "sub", "summary", "sup", "table", "tbody", "td", "th", "time", "tr", "tt", "u", "ul", "var", "video", "ins", "del", "a", "map", "canvas", "div"}
			holds := []string{"wa of it", "<p>wb of it</p>", "<b>wc</b> of it<div>wd</div>", "", "<span>we of it</span>", "<div>wf</div>"}
			spots := []string{"before X after", "X", "<p>before X after</p>", "<p>x</p>X<p>y</p>", "<span>X</span> tail", "<div>X</div><div>z</div>", "<b>v</b>X<br/>u"}
			fs = append(fs, Family{Name: "names", N: size(2, len(names), len(holds), len(spots)), Run: func(t *T, i uint64) {
				d := &dec{i}
				pl := pick(d, c26Places[:2])
				n, h, s := pick(d, names), pick(d, holds), pick(d, spots)
				c26Judge(t, pl, strings.Replace(s, "X", "<"+n+">"+h+"</"+n+">", 1))
			}})
			// empty elements and such as are removed, within and beside inline content
			voids := []string{"<input/>", "<select><option>o</option></select>", "<textarea>o</textarea>", "<button>o</button>", "<wbr/>", "<hr/>", "<img src=\"http://h.example/i.png\"/>", "<script>o</script>", "<noscript>o</noscript>", "<embed src=\"http://h.example/e\"/>", "<object data=\"http://h.example/o\"></object>", "<iframe src=\"http://h.example/f\"></iframe>", "<iframe src=\"http://www.youtube.com/embed/1\"></iframe>", "<object data=\"http://www.youtube.com/v/1\"></object>", "<embed src=\"http://www.youtube.com/v/1\"/>", "<style>o</style>", "<link rel=\"x\"/>", "<meta name=\"x\"/>", "<svg></svg>", "<canvas></canvas>", "<audio></audio>", "<video></video>", "<br/>", "<custom></custom>", "<keygen/>", "<area/>", "<param/>", "<source/>", "<track/>", "<base/>", "<col/>", "<command/>"}
			vspots := []string{"before words X after it", "<p>q r</p>before words X after it<p>y z</p>", "X after it<p>y z</p>", "<p>q r</p>before it X", "<p>q r</p>X<p>y z</p>", "<b>v w</b>X<i>s t</i><p>y z</p>", "<span>a b X c d</span> tail<p>y z</p>", "<a href=\"http://h.example/\">a X</a> tail of it and more<p>y z</p>", "before it X<br/>mid X after it<p>y z</p>", "<div>before words X after it</div><div>z</div>", "<div>X</div><div>z</div>", "<div><p>q r</p>X</div><div>z</div>"}
			fs = append(fs, Family{Name: "voids", N: size(2, len(voids), len(voids), len(vspots)), Run: func(t *T, i uint64) {
				d := &dec{i}
				pl := pick(d, c26Places[:2])
				v, w, s := pick(d, voids), pick(d, voids), pick(d, vspots)
				s = strings.Replace(s, "X", v, 1)
				if !strings.Contains(s, "X") {
					s += w
				}
				c26Judge(t, pl, strings.Replace(s, "X", w, 1))
			}})
			// names in names
			short := []string{"div", "p", "section", "article", "ul", "ol", "li", "blockquote", "pre", "h2", "span", "a", "del", "td", "table", "figure", "dl", "main", "form", "b"}
			fs = append(fs, Family{Name: "names-nested", N: size(len(short), len(short), len(short), 4), Run: func(t *T, i uint64) {
				d := &dec{i}
				a, b, c, v := pick(d, short), pick(d, short), pick(d, short), d.n(4)
				x := "<" + c + ">wa in it, and more</" + c + ">"
				if v&1 == 1 {
					x += "<p>wb beside</p>"
				}
				x = "<" + b + ">" + x + "</" + b + ">"
				if v&2 == 2 {
					x = "wc " + x
				}
				c26Judge(t, c26Places[1], "<"+a+">"+x+"</"+a+">")
			}})
			// headings which repeat the title
			words5 := []string{"alpha", "Betas", "gam", "delta9", "of"}
			fresh := []string{"", " new", " new words", " some newer words here"}
			writ := []func(string) string{func(s string) string { return s }, strings.ToUpper, func(s string) string { return "\u201c" + strings.ReplaceAll(s, " ", " - ") + "!\u201d" }}
			hspots := []string{"<h1>H</h1>M1M2", "<h2>H</h2>M1M2", "<h3>H</h3>M1M2", "M1<h2>H</h2>M2", "<h2>other heading</h2>M1<h2>H</h2>M2", "<h1>H</h1>M1<h2>H</h2>M2", "<header><h1>H</h1></header>M1M2", "<div><h1><b>H</b></h1></div>M1M2"}
			fs = append(fs, Family{Name: "title-headings", N: size(2, 32, len(fresh), len(writ), len(hspots)), Run: func(t *T, i uint64) {
				d := &dec{i}
				title := strings.Join(words5, " ")
				if d.b() {
					title = "Alpha (betas), gam: delta9, of"
				}
				title = strings.Replace(title, ":", "", 1)
				mask := d.n(32)
				var h []string
				for k, w := range words5 {
					if mask>>k&1 == 1 {
						h = append(h, w)
					}
				}
				x := pick(d, writ)(strings.TrimSpace(strings.Join(h, " ") + pick(d, fresh)))
				c26Titled(t, title, x, pick(d, hspots))
			}})
			odd := []string{"Новости этого дня в мире", "最近的新闻在这里最近的新闻在这里", "Ärger über das Öl im Überfluß", "Mixed заголовок with words here", "...... ...... ......", "0 1 2 3 4 5 6 7 8 9", "under_score words in_the title"}
			fs = append(fs, Family{Name: "other-scripts", N: size(len(odd), len(odd)+3, len(hspots)), Run: func(t *T, i uint64) {
				d := &dec{i}
				title := pick(d, odd)
				x := pick(d, append(append([]string{}, odd...), "日本", ".", "Mixed"))
				c26Titled(t, title, x, pick(d, hspots))
			}})
			// single-cell tables
			cells := []string{"wa text", "<b>wb</b> <i>wc</i>", "<p>wd</p>", "we<p>wf</p>", "<div>wg</div>", "", " ", "<br/>", `<a href="http://h.example/c">wh</a>`, "<del><p>wi</p></del>", `<img src="http://h.example/c.png"/>`, "<span><div>wj</div></span>", "<table><tr><td>wk</td></tr></table>", "<ul><li>wl</li></ul>"}
			tabs := []string{"<table><tr><td>X</td></tr></table>", "<table><tbody><tr><td>X</td></tr></tbody></table>", "<table>\n<tbody>\n<tr>\n<td>X</td>\n</tr>\n</tbody>\n</table>", "<table><tr><td>X</td><td>other</td></tr></table>", "<table><tr><td>X</td></tr><tr><td>other</td></tr></table>", "<table><tr><th>X</th></tr></table>", "<table><caption>c</caption><tr><td>X</td></tr></table>", `<table title="t"><tr><td lang="en" title="u">X</td></tr></table>`, "<table><tbody><tr><td>X</td></tr></tbody><tbody></tbody></table>", "<table><thead><tr><td>X</td></tr></thead></table>", "<table><tr>stray<td>X</td></tr></table>", "<table><tr>stray <td>X</td>\n</tr></table>"}
			fs = append(fs, Family{Name: "single-cells", N: size(len(c26Places), len(tabs), len(cells), 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				pl, tb, ce, o := pick(d, c26Places), pick(d, tabs), pick(d, cells), d.n(3)
				x := strings.Replace(tb, "X", ce, 1)
				switch o {
				case 1:
					x = "<div>" + x + "</div>"
				case 2:
					x = "<p>before</p>" + x + "<br/><p>after</p>"
				}
				c26Judge(t, pl, x)
			}})
			// what is renamed, unwrapped or turned into something else keeps its attributes
			ren := []string{"<font@>wa of it</font>", "<div@>wa of it</div>", "<div@><p>wa of it</p></div>", "<h1@>wa of it</h1>", "<table@><tr><td>wa of it</td></tr></table>", "<table><tr><td@>wa of it</td></tr></table>", "<table><tr><td@><p>wa of it</p></td></tr></table>", "<section@><p>wa of it</p></section>", "<section@><div>wa of it</div></section>", "<p@>wa of it</p>", "<div@>wa <b>of</b> it<p>and on</p></div>", "<div><p@>wa of it</p></div>", "<font@><font>wa of it</font></font>", "<span@>wa of it</span>", "<div@><font>wa of it</font></div>"}
			rat := []string{` title="t"`, ` lang="en"`, ` dir="rtl"`, ` data-x="y"`, ` id="k1"`, ` class="c1 c2"`, ` color="red"`, ` face="f"`, ` size="3"`, ` name="n"`, ` width="5"`, ` href="http://h.example/a"`, ` itemprop="p"`}
			rspots := []string{"X", "<p>before X after</p>", "<div>X</div>", "<div>X<p>next</p></div>", "<ul><li>X</li><li>more</li></ul>"}
			fs = append(fs, Family{Name: "attributes", N: size(2, len(ren), len(rat), len(rat), len(rspots)), Run: func(t *T, i uint64) {
				d := &dec{i}
				pl, x, a, b, sp := pick(d, c26Places[:2]), pick(d, ren), pick(d, rat), pick(d, rat), pick(d, rspots)
				if a != b {
					a += b
				}
				c26Judge(t, pl, strings.Replace(sp, "X", strings.Replace(x, "@", a, 1), 1))
			}})
			return fs
		}})
}
