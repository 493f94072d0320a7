package main

import (
	"fmt"
	"strings"

	readability "github.com/giulianopz/go-readability"
)

// C24, C25, C26: the extraction against the reference model of ref.go.

const refTitle = "Wholly unrelated heading words"

func refPage(bodyAttrs, body string) string {
	return "<html><head><title>" + refTitle + "</title></head><body" + bodyAttrs + ">" + body + "</body></html>"
}

// refText has exactly n characters and the given number of commas. Its words carry the tag.
func refText(tag string, n, commas int, end string) string {
	var b strings.Builder
	i, put := 0, 0
	for b.Len() < n {
		w := fmt.Sprintf("%s%d", tag, i)
		i++
		if put < commas {
			w += ","
			put++
		}
		if b.Len() > 0 {
			w = " " + w
		}
		b.WriteString(w)
	}
	s := []byte(b.String()[:n])
	// no blank at the end, and all of the commas
	for k := len(s) - 1; k >= 0 && (s[k] == ' ' || s[k] == ','); k-- {
		s[k] = 'z'
	}
	have := strings.Count(string(s), ",")
	for k := 1; k < len(s)-1 && have < commas; k++ {
		if s[k] != ' ' && s[k] != ',' && s[k-1] != ' ' {
			s[k] = ','
			have++
		}
	}
	if end != "" {
		s[n-1] = end[0]
	}
	return string(s)
}

// refJudge compares the library with the reference on one page.
func refJudge(t *T, src string, o rOpts, opts ...readability.Option) {
	if o.top == 0 {
		o.top = 5
	}
	if o.top < 0 {
		o.top = 0
	}
	if o.title == "" {
		o.title = refTitle
	}
	t.Begin("%s", src)
	want := rExtract(src, o)
	res, err := t.Parse(src, docURI, opts...)
	t.Trace()
	if want == nil {
		if err == nil {
			t.Fail("there is nothing to extract, but the result is %s", short(res.HTMLContent))
		}
		return
	}
	if err != nil {
		t.Fail("%v, want %s", err, short(want.html))
		return
	}
	t.State(src)
	t.Outcome(want.html)
	if res.HTMLContent != want.html {
		t.Fail("the content is\n%s\nand should be\n%s", diffAt(res.HTMLContent, want.html), diffAt(want.html, res.HTMLContent))
		return
	}
	if res.TextContent != want.text || res.Byline != want.byline || res.Dir != want.dir {
		t.Fail("text, byline %q or direction %q differ from %q %q", res.Byline, res.Dir, want.byline, want.dir)
	}
}

func refPara(tag string, n, commas int) string {
	return "<p>" + refText(tag, n, commas, ".") + "</p>"
}

// blocks a page is made of
func refBlocks() []string {
	a := func(tag string, n int) string {
		return `<a href="http://h.example/` + tag + `">` + refText(tag, n, 0, "") + `</a>`
	}
	return []string{
		refPara("X", 200, 4),
		refPara("X", 60, 1),
		"<p>" + refText("X", 24, 0, "") + "</p>",
		"<p>" + refText("X", 25, 0, "") + "</p>",
		"<p>" + refText("X", 79, 0, "") + "</p>",
		"<p>" + refText("X", 81, 0, "") + "</p>",
		"<p>" + refText("X", 50, 0, "") + " " + a("Xl", 50) + "</p>",
		"<div>" + refText("X", 120, 2, ".") + "</div>",
		"<div>" + refPara("X", 120, 2) + "</div>",
		"<div>" + refPara("X", 120, 2) + refPara("Y", 320, 6) + "</div>",
		`<div class="post">` + refPara("X", 150, 2) + refPara("Y", 150, 2) + "</div>",
		`<div class="sidebar">` + refPara("X", 150, 2) + refPara("Y", 150, 2) + "</div>",
		`<div id="widget">` + refPara("X", 400, 8) + refPara("Y", 450, 9) + "</div>",
		`<div class="menu">` + a("X", 30) + a("Y", 30) + "</div>",
		"<section>" + refPara("X", 220, 4) + "</section>",
		"<article>" + refPara("X", 220, 4) + refPara("Y", 90, 1) + "</article>",
		"<blockquote>" + refPara("X", 220, 3) + "</blockquote>",
		"<pre>" + refText("X", 130, 2, "") + "</pre>",
		"<ul><li>" + refText("X", 40, 0, "") + "</li><li>" + a("Y", 30) + "</li></ul>",
		"<ul><li>" + refPara("X", 140, 3) + "</li><li>" + refPara("Y", 140, 3) + "</li></ul>",
		"<table><tr><td>" + refText("X", 140, 3, "") + "</td><td>" + refText("Y", 60, 0, "") + "</td></tr></table>",
		"<h2>" + refText("X", 40, 0, "") + "</h2>",
		"<h3>" + refText("X", 20, 0, "") + "</h3>",
		refText("X", 90, 1, "."),
		refText("X", 40, 0, "") + "<br/><br/>" + refText("Y", 120, 2, ""),
		"<figure><img src=\"http://h.example/X.png\"/><figcaption>" + refText("X", 50, 0, "") + "</figcaption></figure>",
		"<form><p>" + refText("X", 60, 0, "") + "</p><input type=\"text\"/></form>",
		"<span>" + refText("X", 70, 0, ".") + "</span>",
		"<footer>" + refPara("X", 130, 1) + "</footer>",
		"<header><h1>" + refText("X", 40, 0, "") + "</h1></header>",
		"<p class=\"byline\">By " + refText("X", 20, 0, "") + "</p>",
		"<div><div>" + refPara("X", 100, 1) + "</div><div>" + refPara("Y", 100, 1) + "</div></div>",
		"<img src=\"http://h.example/X.png\"/>",
		"<hr/>",
		" ",
	}
}

// fill puts the words of the i-th block apart from those of the others.
func refFill(b string, i int) string {
	lo := string(rune('a' + i))
	return strings.NewReplacer("X", lo+"x", "Y", lo+"y").Replace(b)
}

var refHosts = []string{"X", "<div>X</div>", `<div class="content">X</div>`, "<article>X</article>", "<section>X</section>", `<div id="main"><div class="story">X</div></div>`, "<main><div>X</div><div><p>nav</p></div></main>", "<div><article>X</article></div>", "<form>X</form>", "<table><tr><td>X</td></tr></table>"}

func init() {
	register(&Prop{ID: "C24", Level: "model_checking",
		Rule: "every page of the enumerated grammars (sequences of blocks in containers, competing containers, points, levels, links, near candidates, siblings, class words, retries) against the reference model of the scoring: exact content; non-trivial: a distinct page with a content",
		Families: func(tier string) []Family {
			thorough := tier == "thorough"
			var fs []Family
			blocks := refBlocks()
			nb := len(blocks)
			fs = append(fs, Family{Name: "sequences", N: size(len(refHosts)) * seqCount(nb, 1, 2), Run: func(t *T, i uint64) {
				d := &dec{i}
				h := pick(d, refHosts)
				x := ""
				for k, b := range seqAt(d.i, nb, 1, 2) {
					x += refFill(blocks[b], k)
				}
				refJudge(t, refPage("", strings.Replace(h, "X", x, 1)), rOpts{threshold: 500})
			}})
			hosts3 := refHosts[:2]
			if thorough {
				hosts3 = refHosts
			}
			fs = append(fs, Family{Name: "sequences-3", N: size(len(hosts3), nb, nb, nb), Run: func(t *T, i uint64) {
				d := &dec{i}
				h := pick(d, hosts3)
				x := ""
				for k := 0; k < 3; k++ {
					x += refFill(pick(d, blocks), k)
				}
				thr := 500
				if h != "X" {
					thr = 150
				}
				refJudge(t, refPage("", strings.Replace(h, "X", x, 1)), rOpts{threshold: thr}, readability.CharThreshold(thr))
			}})
			// two containers compete
			tags := []string{"div", "section", "article", "blockquote", "td", "pre", "ul", "ol", "dl", "form", "address", "main", "aside", "span", "li", "h2", "th", "h1", "h6", "dd", "dt", "h3", "h4", "h5"}
			cls := []string{"", ` class="content"`, ` class="promo"`, ` id="post"`, ` class="share" id="text"`, ` class="story" id="blog"`, ` class="entry widget"`}
			fills := []string{refPara("X", 110, 1), refPara("X", 110, 3) + refPara("Y", 110, 0), refPara("X", 310, 5) + refPara("Y", 330, 6) + "<p>" + refText("Yy", 250, 3, "") + "</p>"}
			fs = append(fs, Family{Name: "containers", N: size(len(tags), len(cls), len(fills), 5, len(cls), len(fills), 2), Run: func(t *T, i uint64) {
				d := &dec{i}
				t1, c1, f1 := pick(d, tags), pick(d, cls), pick(d, fills)
				t2, c2, f2 := tags[d.n(5)], pick(d, cls), pick(d, fills)
				x := "<" + t1 + c1 + ">" + refFill(f1, 0) + "</" + t1 + "><" + t2 + c2 + ">" + refFill(f2, 1) + "</" + t2 + ">"
				if d.b() {
					x = "<div>" + x + "<p>tail</p></div>"
				}
				refJudge(t, refPage("", x), rOpts{threshold: 100}, readability.CharThreshold(100))
			}})
			// points: lengths and commas
			lens := []int{24, 25, 26, 99, 100, 101, 199, 200, 201, 299, 300, 301, 399, 400, 500}
			comm := []int{0, 1, 2, 3, 5, 8, 13}
			others := []string{refPara("Q", 150, 3), refPara("Q", 320, 8), refPara("Q", 320, 8) + refPara("R", 320, 8), refPara("Q", 320, 12) + refPara("R", 320, 12) + refPara("S", 320, 12) + refPara("T", 320, 12)}
			fs = append(fs, Family{Name: "points", N: size(len(lens), len(comm), 3, len(others), 2, 2), Run: func(t *T, i uint64) {
				d := &dec{i}
				n, c, k, o, deep, mark := pick(d, lens), pick(d, comm), 1+d.n(3), pick(d, others), d.b(), d.b()
				x := ""
				for j := 0; j < k; j++ {
					x += "<p>" + refText("p"+string(rune('a'+j)), n, c, "") + "</p>"
				}
				if deep {
					x = "<div>" + x + "<p>short</p></div><p>tiny</p>"
				}
				a := ""
				if mark {
					a = ` class="b"`
				}
				refJudge(t, refPage("", "<section"+a+">"+x+"<p>one</p></section><section"+a+">"+o+"<p>two</p></section>"), rOpts{threshold: 1}, readability.CharThreshold(1))
			}})
			// the bounds of the points, against rivals of every score
			blens := []int{23, 24, 25, 26, 27, 99, 100, 101, 199, 200, 299, 300, 301, 399, 400}
			btags := []string{"p", "section", "h3", "pre", "td", "div", "h2", "h4", "h5", "h6"}
			fs = append(fs, Family{Name: "bounds", N: size(len(blens), len(btags), 6, 14, 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				n, tag, k, rival, v := pick(d, blens), pick(d, btags), 1+d.n(6), d.n(14), d.n(3)
				x := ""
				for j := 0; j < k; j++ {
					txt := refText("p"+string(rune('a'+j)), n, 0, "")
					if v == 1 {
						// as many characters, more bytes
						txt = strings.NewReplacer("1", "é", "2", "漢").Replace(txt)
					}
					x += "<" + tag + ">" + txt + "</" + tag + ">"
				}
				if tag == "td" {
					x = "<table><tr>" + x + "</tr></table>"
				}
				o := "<p>" + refText("r", 60+100*(rival/7), rival, "") + "</p>"
				pg := "<section>" + x + "<p>one</p></section><section>" + o + "<p>two</p></section>"
				if v == 2 {
					// the one in a place of its own
					pg = "<div><section>" + x + "<p>one</p></section><p>a</p></div><div><section>" + o + "<p>two</p></section><p>b</p></div>"
				}
				refJudge(t, refPage("", pg), rOpts{threshold: 1}, readability.CharThreshold(1))
			}})
			commaRunes := []string{",", "،", "﹐", "︐", "︑", "⹁", "⸴", "⸲", "，", ";", "、", "."}
			fs = append(fs, Family{Name: "comma-signs", N: size(len(commaRunes), 30, 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				r, n, v := pick(d, commaRunes), d.n(30), d.n(3)
				w := "word"
				for j := 0; j < n; j++ {
					w += r + " x"
				}
				other := refPara("Q", 120, []int{2, 6, 14}[v])
				refJudge(t, refPage("", "<div><section><p>"+w+" and the rest of this paragraph</p><p>one</p></section></div><div><section>"+other+"<p>two</p></section></div>"), rOpts{threshold: 1}, readability.CharThreshold(1))
			}})
			// levels: text at every depth of a chain, with something beside it or not
			wrap := []string{"<div>X</div>", "<div>X<p>beside</p></div>", "<section>X</section>", "<section>X<p>beside</p></section>", `<div class="text">X<p>beside</p></div>`, `<div class="tool">X<p>beside</p></div>`, "<ul>X<li>beside</li></ul>", "<blockquote>X<p>beside</p></blockquote>"}
			D := 4
			if thorough {
				D = 5
			}
			fs = append(fs, Family{Name: "levels", N: size(3, 2) * seqCount(len(wrap), 0, D), Run: func(t *T, i uint64) {
				d := &dec{i}
				v, two := d.n(3), d.b()
				x := "<p>" + refText("in", 250, 5, "") + "</p><p>x</p>"
				for k, w := range seqAt(d.i, len(wrap), 0, D) {
					if v == k {
						x += "<p>" + refText("out", 220, 4, "") + "</p>"
					}
					x = strings.Replace(wrap[w], "X", x, 1)
				}
				if two {
					x += "<section><p>" + refText("oth", 300, 3, "") + "</p><p>" + refText("oto", 70, 1, ".") + "</p></section>"
				}
				refJudge(t, refPage("", x), rOpts{threshold: 1}, readability.CharThreshold(1))
			}})
			// links
			shares := []int{0, 5, 10, 19, 20, 21, 24, 25, 26, 40, 49, 50, 51, 60, 75, 100}
			hrefs := []string{"http://h.example/l", "#frag", "#", "", "http://h.example/l#frag", "http://host.example/#frag", "mailto:a@h.example", "http://h.example/?a#b", "##", "#!/x"}
			fs = append(fs, Family{Name: "links", N: size(len(shares), len(hrefs), 6, 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				s, href, where, big := pick(d, shares), pick(d, hrefs), d.n(6), d.n(3)
				total := []int{100, 200, 400}[big]
				link := ""
				if n := s * total / 100; n > 0 {
					link = refText("ln", n, 0, "")
					at := ""
					if href != "" {
						at = ` href="` + href + `"`
					}
					link = "<a" + at + ">" + link + "</a>"
				}
				rest := ""
				if n := total - s*total/100; n > 0 {
					rest = refText("rs", n, 0, "")
				}
				mix := rest + link
				var x string
				main := "<div>" + refPara("m", 300, 6) + refPara("n", 300, 5) + "</div>"
				switch where {
				case 0:
					x = "<p>" + mix + "</p>" + main
				case 1:
					x = "<div><p>" + mix + "</p></div>" + main
				case 2:
					x = "<div>" + mix + "</div>" + main
				case 3:
					x = "<section><p>" + mix + "</p><p>" + refText("z", 100, 3, "") + "</p></section><section><p>" + refText("y", 180, 3, "") + "</p><p>y</p></section>"
				case 4:
					x = "<article><p>" + mix + "</p>" + main + "</article>"
				case 5:
					x = "<div>" + refPara("m", 300, 6) + "<div><p>" + rest + "</p><p>" + link + "</p></div>" + refPara("n", 300, 5) + "</div>"
				}
				refJudge(t, refPage("", x), rOpts{threshold: 1}, readability.CharThreshold(1))
			}})
			// several candidates of nearly the same score
			fs = append(fs, Family{Name: "near-candidates", N: size(10, 5, 8, 3, 4, 2), Run: func(t *T, i uint64) {
				d := &dec{i}
				k, drop, top, depth, tag, mid := 1+d.n(10), d.n(5), []int{5, -1, 1, 3, 6, 8, 2, 100}[d.n(8)], d.n(3), []string{"div", "article", "li", "section"}[d.n(4)], d.b()
				x := ""
				for j := 0; j < k; j++ {
					n := 380
					if j > 0 && j < 6 {
						n = []int{380, 300, 210, 120, 60}[(drop+j-1)%5]
						if drop == 0 {
							n = 380
						}
					}
					c := "<" + tag + "><p>" + refText("t"+string(rune('a'+j)), n, n/60, "") + "</p><p>u</p></" + tag + ">"
					if mid && j >= k/2 {
						c = "<div>" + c + "<p>between</p></div>"
					}
					x += c
				}
				for j := 0; j < depth; j++ {
					x = "<div>" + x + "<p>foot</p></div>"
				}
				eff := top
				if top == -1 {
					eff = 0
				}
				refJudge(t, refPage("", x), rOpts{threshold: 1, top: top}, readability.CharThreshold(1), readability.NTopCandidates(eff))
			}})
			// candidates of falling scores in two parts of the page: which of them count depends on how many are looked at
			fs = append(fs, Family{Name: "ranked-candidates", N: size(128, 8, 3, 2), Run: func(t *T, i uint64) {
				d := &dec{i}
				mask, top, step, tag := d.n(128), 2+d.n(8), []int{1, 2, 4}[d.n(3)], []string{"div", "section"}[d.n(2)]
				parts := [2]string{}
				for j := 0; j < 8; j++ {
					in := 0
					if j > 0 && mask>>(j-1)&1 == 1 {
						in = 1
					}
					// far enough from the common ancestor for it not to collect their scores
					parts[in] += "<" + tag + "><p>w</p><div><p>v</p><div><p>" + refText("t"+string(rune('a'+j)), 400, 40-step*j, "") + "</p><p>u</p></div></div></" + tag + ">"
				}
				x := "<div><div>" + parts[0] + "<p>foot a</p></div><p>c</p></div><div><div>" + parts[1] + "<p>foot b</p></div><p>d</p></div>"
				opts := []readability.Option{readability.CharThreshold(1)}
				if top != 5 {
					opts = append(opts, readability.NTopCandidates(top)) // 5 is the default
				}
				refJudge(t, refPage("", x), rOpts{threshold: 1, top: top}, opts...)
			}})
			// siblings of the article
			slens := []int{1, 10, 24, 25, 40, 78, 79, 80, 81, 82, 120, 250}
			sclass := []string{"", ` class="same"`, ` class="other"`, ` class="same other"`}
			stags := []string{"p", "div", "section", "h2", "blockquote", "ul", "span", "pre", "td"}
			sends := []string{"", ".", "dot mid"}
			fs = append(fs, Family{Name: "siblings", N: size(len(slens), len(sclass), len(stags), len(sends), 3, 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				n, c, tag, end, link, pos := pick(d, slens), pick(d, sclass), pick(d, stags), pick(d, sends), d.n(3), d.n(3)
				var txt string
				switch {
				case end == "dot mid" && n > 20:
					txt = refText("sa", n-12, 0, "") + ". " + refText("sb", 10, 0, "")
				case end == "dot mid":
					txt = strings.Repeat(".", n)
				case n < 3:
					txt = strings.Repeat("q", n-1) + (end + "q")[:1]
				default:
					txt = refText("sa", n, n/50, end)
				}
				switch link {
				case 1:
					txt = `<a href="http://h.example/l">` + txt + "</a>"
				case 2:
					txt = `<a href="http://h.example/l">l</a>` + txt
				}
				sib := "<" + tag + c + ">" + txt + "</" + tag + ">"
				main := `<div class="same">` + refPara("m", 320, 8) + refPara("n", 320, 8) + "</div>"
				x := sib + main
				if pos == 1 {
					x = main + sib
				}
				if pos == 2 {
					x = sib + main + strings.ReplaceAll(sib, "s", "v")
					x = strings.ReplaceAll(strings.ReplaceAll(x, "claVV", "class"), "vpan", "span")
					x = sib + main + "<p>" + refText("w", 90, 0, "") + "</p>"
				}
				refJudge(t, refPage("", "<div>"+x+"</div>"), rOpts{threshold: 1}, readability.CharThreshold(1))
			}})
			// sibling scores around a fifth of the article's
			fs = append(fs, Family{Name: "sibling-scores", N: size(12, 8, 4, 7, 3, 2), Run: func(t *T, i uint64) {
				d := &dec{i}
				mp, sc, kind, same, paras, mt := 1+d.n(12), d.n(8), d.n(4), d.n(7), 1+d.n(3), []string{"section", "div"}[d.n(2)]
				main, sib := "", ""
				for j := 0; j < mp; j++ {
					main += "<p>" + refText("m"+string(rune('a'+j)), 310, 4, "") + "</p>"
				}
				for j := 0; j < paras; j++ {
					sib += "<p>" + refText("s"+string(rune('a'+j)), 60, sc, "") + "</p>"
				}
				tag := []string{"div", "section", "blockquote", "ul"}[kind]
				c2 := []string{"", ` class="cc"`, ` class="cc dd"`, ` class="CC"`, ` class="c"`, ` class="xcc"`, ` id="cc"`}[same]
				refJudge(t, refPage("", `<div><`+mt+` class="cc">`+main+`</`+mt+`><`+tag+c2+">"+sib+"</"+tag+"></div>"), rOpts{threshold: 1}, readability.CharThreshold(1))
			}})
			// the words of classes and ids
			var wl []string
			for _, l := range [][]string{rUnlikely, rMaybe, rPositive, rNegative, rBylines, {"hid", "xhid", "hid x", "x hid", "x hid y", "hidx", "ad", "-ad", "share", "sharing", "com", "plain", "foo bar"}} {
				wl = append(wl, l...)
			}
			spell := []func(string) string{func(s string) string { return s }, strings.ToUpper, func(s string) string { return "x" + s + "y" }, func(s string) string { return "q " + s }, func(s string) string { return s[:len(s)-1] }, func(s string) string { return s + "-article" }}
			wtags := []string{"div", "p", "section", "h2", "a", "table", "ul", "span", "body"}
			fs = append(fs, Family{Name: "class-words", N: size(len(wl), len(spell), 2, len(wtags), 4), Run: func(t *T, i uint64) {
				d := &dec{i}
				w, sp, at, tag, where := pick(d, wl), d.n(len(spell)), []string{"class", "id"}[d.n(2)], pick(d, wtags), d.n(4)
				if tag == "body" && where > 0 {
					return
				}
				v := spell[sp](w)
				inner := refText("k", 130, 2, ".")
				switch tag {
				case "div", "section":
					inner = refPara("k", 130, 2) + refPara("j", 70, 2)
				case "table":
					inner = "<tr><td>" + inner + "</td><td>j</td></tr>"
				case "ul":
					inner = "<li>" + inner + "</li>"
				}
				el := "<" + tag + " " + at + `="` + v + `">` + inner + "</" + tag + ">"
				m1, m2 := refPara("m", 220, 4), refPara("n", 220, 4)
				var x, battr string
				switch where {
				case 0: // among the paragraphs
					x = "<div>" + m1 + el + m2 + "</div>"
				case 1: // beside them
					x = "<div>" + m1 + m2 + "</div>" + el
				case 2: // in a container, against another one
					x = `<section ` + at + `="` + v + `">` + m1 + "<p>x</p></section><section>" + el + m2 + "<p>y</p></section>"
				case 3: // in a table cell or in code
					x = "<div>" + m1 + m2 + "<table><tr><td>" + el + "</td><td>other</td></tr></table><code><b><i>" + strings.ReplaceAll(el, "k", "l") + "</i></b></code></div>"
					if strings.Contains(x, "<tabl") && (strings.Contains(v, "k") || strings.Contains(tag, "k")) {
						return
					}
				}
				if tag == "body" {
					x, battr = "<div>"+m1+m2+"</div>", " "+at+`="`+v+`"`
				}
				refJudge(t, refPage(battr, x), rOpts{threshold: 300}, readability.CharThreshold(300))
			}})
			// retries
			retry := []string{
				refPara("X", 120, 2), `<div class="sidebar">` + refPara("X", 200, 2) + "</div>", `<div class="promo">` + refPara("X", 150, 2) + refPara("Y", 90, 1) + "</div>",
				`<div class="comment">` + refPara("X", 260, 2) + refPara("Y", 240, 1) + "</div>", "<ul><li><a href=\"http://h.example/X\">" + refText("X", 60, 0, "") + "</a></li></ul>",
				`<div><p><a href="http://h.example/X">` + refText("X", 150, 0, "") + `</a></p><p>x</p></div>`, "<div><ul><li>" + refText("X", 30, 0, "") + "</li></ul></div>",
				`<div class="widget"><p>` + refText("X", 40, 0, "") + "</p></div>", `<p class="author">` + refText("X", 50, 0, "") + "</p>", `<h2 class="meta">` + refText("X", 45, 0, "") + "</h2>",
			}
			thr := []int{0, 1, 100, 250, 500, 2000}
			fs = append(fs, Family{Name: "retries", N: size(len(thr), 3) * seqCount(len(retry), 1, 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				th, h := pick(d, thr), []string{"X", "<div>X</div>", `<div class="content"><p>x</p>X</div>`}[d.n(3)]
				x := ""
				for k, b := range seqAt(d.i, len(retry), 1, 3) {
					x += refFill(retry[b], k)
				}
				refJudge(t, refPage("", strings.Replace(h, "X", x, 1)), rOpts{threshold: th}, readability.CharThreshold(th))
			}})
			return fs
		}})
}
