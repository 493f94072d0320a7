package main

import (
	"fmt"
	"strings"

	readability "github.com/giulianopz/go-readability"
)

// refCount repeats a piece, numbered.
func refCount(n int, piece string) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(strings.ReplaceAll(piece, "#", fmt.Sprint(i)))
	}
	return b.String()
}

// where a block of an article may stand
var c25Places = []string{
	"<div>M1M2XM3</div>",
	"<article>M1<section>M2X</section>M3</article>",
	"<div>M1M2<figure>X</figure>M3</div>",
	"<div>M1M2<figure><div><p>cc</p><div><p>bb</p>X</div></div></figure>M3</div>",
	"<div>M1M2<figure><div><p>ee</p><div><p>dd</p><div><p>cc</p><div><p>bb</p>X</div></div></div></div></figure>M3</div>",
	"<div>M1M2<table><caption>data</caption><tr><td>X</td></tr></table>M3</div>",
	"<div>M1M2<code><b>X</b></code>M3</div>",
	"<div>M1M2<code><b><i><u><s>X</s></u></i></b></code>M3</div>",
	"<div>M1M2<code><b><i><u><s><q>X</q></s></u></i></b></code>M3</div>",
	"<div>M1M2<blockquote>X<p>and some more words of the quote</p></blockquote>M3</div>",
}

// c25Cjk replaces the letters and digits of a text (of one case each) with characters of three bytes.
func c25Cjk(s string) string {
	if strings.HasPrefix(s, "<h3>") {
		return s[:4] + strings.ReplaceAll(s[4:], "#", "語")
	}
	var b strings.Builder
	for _, c := range s {
		if c == ' ' || c == ',' || c == '.' {
			b.WriteRune(c)
		} else {
			b.WriteRune('語')
		}
	}
	return b.String()
}

func c25Page(place, x string) string {
	return refPage("", strings.NewReplacer("M1", refPara("ma", 320, 8), "M2", refPara("mb", 320, 8), "M3", refPara("mc", 320, 8), "X", x).Replace(place))
}

func c25Judge(t *T, place, x string) {
	refJudge(t, c25Page(place, x), rOpts{threshold: 500})
}

var c25Class = []string{"", ` class="text"`, ` class="tool"`, ` class="text" id="tool"`, ` class="text" id="blog"`}

func c25Wrap(tag, attrs, x string) string {
	switch tag {
	case "table":
		return "<table" + attrs + "><tr><td>" + x + "</td><td>cell</td></tr></table>"
	case "ul", "ol":
		return "<" + tag + attrs + "><li>" + x + "</li><li>item</li></" + tag + ">"
	}
	return "<" + tag + attrs + ">" + x + "</" + tag + ">"
}

func init() {
	tags := []string{"div", "ul", "table", "form", "fieldset", "section", "ol"}
	register(&Prop{ID: "C25", Level: "model_checking",
		Rule: "every block of the enumerated grammar (counts of paragraphs, images, inputs, items and embeds, link and heading shares, lengths, weights, places) within an article, against the reference model of the cleaning: exact content; non-trivial: a distinct page with a content",
		Families: func(tier string) []Family {
			thorough := tier == "thorough"
			var fs []Family
			places := c25Places
			few := c25Places[:1]
			if thorough {
				few = places
			}
			ps := []int{0, 1, 2, 3, 4}
			fs = append(fs, Family{Name: "counts", N: size(len(tags), len(c25Class), len(ps), 5, 3, 3, 3, len(few)), Run: func(t *T, i uint64) {
				d := &dec{i}
				tag, c, p, img, in, len3, com, place := pick(d, tags), pick(d, c25Class), pick(d, ps), d.n(5), d.n(3), d.n(3), []int{0, 9, 10}[d.n(3)], pick(d, few)
				x := refCount(p, "<p>pa#</p>") + refCount(img, `<img src="http://h.example/i#.png"/>`) + refCount(in, `<input name="n#"/>`)
				if n := []int{0, 24, 90}[len3]; n > 0 {
					x += "<h4>" + refText("tx", n, min(com, n/3), "") + "</h4><em>w</em>"
				} else if com > 0 {
					return
				}
				c25Judge(t, place, c25Wrap(tag, c, x))
			}})
			fs = append(fs, Family{Name: "commas", N: size(len(tags), 16, 5, 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				tag, com, kind, w := pick(d, tags), d.n(16), d.n(5), c25Class[d.n(3)]
				x := `<a href="http://h.example/l">` + refText("ln", 60, com, "") + "</a>"
				if kind == 1 {
					x = `<a href="http://h.example/l">` + refText("ln", 60, 0, "") + "</a>" + strings.Repeat("، ", com) + "<p>" + refText("pp", 50, 9, "") + "</p>"
				}
				if kind > 1 { // commas without a blank, in a row, and as the very text
					x = `<a href="http://h.example/l">` + refText("ln", 60, 0, "") + "</a> " + strings.Repeat([]string{"w,w", ",", "<b>,</b>"}[kind-2], com) + " end"
				}
				c25Judge(t, c25Places[0], c25Wrap(tag, w, x))
			}})
			lis := []int{0, 1, 3, 99, 100, 101, 102, 103, 104, 110}
			fs = append(fs, Family{Name: "items", N: size(len(lis), 5, 3, 4, 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				n, p, out, kind, rest := pick(d, lis), d.n(5), d.n(3), d.n(4), d.n(3)
				list := []string{"ul", "ol"}[kind%2]
				item := "<li>it#</li>"
				if kind > 1 {
					item = `<li><a href="http://h.example/#">it#</a></li>`
				}
				x := refCount(p, "<p>pa#</p>")
				if n > 0 {
					x += "<" + list + ">" + refCount(n, item) + "</" + list + ">"
				}
				// the rest decides whether all of it is a list
				x += []string{"", "<b>" + refText("rr", 30, 0, "") + "</b>", "<b>" + refText("rr", 300, 0, "") + "</b>"}[rest]
				c25Judge(t, c25Places[0], c25Wrap([]string{"div", "table", "section"}[out], "", x))
			}})
			// what share of a block is a list
			fs = append(fs, Family{Name: "list-share", N: size(41, 3, 3, 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				l, kind, out := 80+d.n(41), d.n(3), d.n(3)
				rest := 120 - l
				// lengths are those of characters
				cjk := func(s string) string { return s }
				other := cjk
				switch d.n(3) {
				case 1:
					cjk = c25Cjk
				case 2:
					other = c25Cjk
				}
				item := refText("it", l, 0, "")
				li := "<li>" + item + "</li>"
				switch kind {
				case 1:
					li = `<li><a href="http://h.example/">` + item + "</a></li>"
				case 2:
					li = `<li><a href="http://h.example/">` + cjk(item[:l/2]) + "</a></li><li>" + cjk(item[l/2:]) + "</li>"
				}
				if kind < 2 {
					li = strings.Replace(li, item, cjk(item), 1)
				}
				x := "<ul>" + li + "</ul>"
				if rest > 0 {
					x += "<b>" + other(refText("rr", rest, 0, "")) + "</b>"
				}
				c25Judge(t, c25Places[0], c25Wrap([]string{"div", "table", "form"}[out], "", x))
			}})
			// link share
			fs = append(fs, Family{Name: "link-share", N: size(101, len(c25Class), 4, 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				s, c, tag, href := d.n(101), pick(d, c25Class), []string{"div", "table", "ul", "form"}[d.n(4)], []string{"http://h.example/l", "#frag", "#"}[d.n(3)]
				x := "<p>x</p><p>y</p>"
				if s > 0 {
					x += `<a href="` + href + `">` + refText("ln", max(s, 2), 0, "") + "</a>"
				}
				if s < 100 {
					x += "<b>" + refText("rs", max(100-s, 2), 0, "") + "</b>"
				}
				c25Judge(t, c25Places[0], c25Wrap(tag, c, x))
			}})
			// short blocks: heading share, length, images, in figures and not
			fs = append(fs, Family{Name: "short", N: size(32, 6, 5, len(places), 2, 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				n, h, img, place, tag := 1+d.n(32), d.n(6), d.n(5), pick(d, places), []string{"div", "table"}[d.n(2)]
				txt := strings.Repeat("k", n)
				cut := n * []int{0, 50, 89, 90, 91, 100}[h] / 100
				x := ""
				script := d.n(3)
				if script > 0 && place != c25Places[0] {
					return
				}
				if cut > 0 {
					x = "<h3>" + txt[:cut] + "</h3>"
					if script == 1 {
						x = c25Cjk(x[:4]+strings.Repeat("#", cut)) + "</h3>"
					}
				}
				if cut < n {
					em := txt[cut:]
					if script == 2 {
						em = c25Cjk(strings.Repeat("#", n-cut))
					}
					x += "<em>" + em + "</em>"
				}
				x += refCount(img, `<p><img src="http://h.example/i#.png"/></p>`)
				if tag == "table" {
					c25Judge(t, place, "<table><tr><td>"+x+"</td><td></td></tr></table>")
				} else {
					c25Judge(t, place, "<div>"+x+"<h5></h5></div>")
				}
			}})
			// embeds
			embeds := []string{`<iframe src="U"></iframe>`, `<embed src="U"/>`, `<object data="U"></object>`, `<object><param value="U"/></object>`, `<object><embed src="U"/></object>`}
			urls := []string{"http://a.example/", "http://www.youtube.com/e", "http://player.vimeo.com/v"}
			fs = append(fs, Family{Name: "embeds", N: size(len(embeds), len(urls), 3, 6, len(c25Class)), Run: func(t *T, i uint64) {
				d := &dec{i}
				e, u, n, length, c := pick(d, embeds), pick(d, urls), d.n(3), []int{0, 10, 74, 75, 76, 130}[d.n(6)], pick(d, c25Class)
				x := refCount(n, strings.ReplaceAll(e, "U", u+"#"))
				if length > 0 {
					x += "<p>" + refText("tx", length, 0, "") + "</p>"
				}
				// conditional removal looks at forms before the embeds are cleaned
				c25Judge(t, c25Places[0], "<form"+c+">"+x+"</form><fieldset>"+x+"</fieldset><div"+c+">"+x+"<p>and</p></div>")
			}})
			// lists of images
			fs = append(fs, Family{Name: "image-lists", N: size(6, 6, 3, 2, 2), Run: func(t *T, i uint64) {
				d := &dec{i}
				li, img, extra, link, tag := d.n(6), d.n(6), d.n(3), d.b(), []string{"ul", "div"}[d.n(2)]
				x := ""
				for k := 0; k < li; k++ {
					c := ""
					if k < img {
						c = fmt.Sprintf(`<img src="http://h.example/i%d.png"/>`, k)
						if link {
							c = `<a href="http://h.example/">` + c + "</a>"
						}
					}
					switch extra {
					case 1:
						c += fmt.Sprintf("tx%d", k)
					case 2:
						c += "<b>b</b>"
					}
					x += "<li>" + c + "</li>"
				}
				x = "<ul>" + x + "</ul>"
				if img > li {
					x += refCount(img-li, `<img src="http://h.example/j#.png"/>`)
				}
				if tag == "div" {
					x = "<div>" + x + "</div>"
				}
				c25Judge(t, c25Places[0], x)
			}})
			// blocks within blocks
			inner := []string{"<p>pp</p>", `<div class="tool"><p>` + refText("wi", 60, 0, "") + "</p><p>x</p></div>", `<div><a href="http://h.example/l">` + refText("ln", 50, 0, "") + "</a><p>x</p></div>", "<ul><li>one</li><li>two</li></ul>", `<ul><li><a href="http://h.example/1">one</a></li></ul>`, "<div><p>" + refText("ok", 80, 1, "") + "</p><p>" + refText("okk", 80, 1, "") + "</p></div>", `<img src="http://h.example/1.png"/><img src="http://h.example/2.png"/>`, "<form><input name=\"q\"/></form>", "<h2 class=\"meta\">meta head</h2>", "<table><tr><td>a</td><td>b</td></tr></table>", "<table summary=\"s\"><tr><td>a</td><td><div>b</div></td></tr></table>"}
			outer := []string{"<div>X</div>", "<div>X<p>" + refText("ou", 90, 1, "") + "</p></div>", `<div class="text">X</div>`, "<ul><li>X</li></ul>", "<table><tr><td>X</td><td>y</td></tr></table>", "<table><tr><th>X</th><td>y</td></tr></table>", "<fieldset>X</fieldset>", "<section>X</section>", `<div class="tool">X<p>` + refText("ou", 190, 3, "") + "</p></div>", "<figure>X</figure>"}
			L := 2
			if thorough {
				L = 3
			}
			fs = append(fs, Family{Name: "nested", N: size(len(outer), len(outer)) * seqCount(len(inner), 1, L), Run: func(t *T, i uint64) {
				d := &dec{i}
				o1, o2 := pick(d, outer), pick(d, outer)
				x := ""
				for _, k := range seqAt(d.i, len(inner), 1, L) {
					x += inner[k]
				}
				c25Judge(t, c25Places[0], strings.Replace(o1, "X", strings.Replace(o2, "X", x, 1), 1))
			}})
			// share elements
			names := []string{"share", "sharedaddy", "SHARE", "share-bar", "share_bar", "my_share", "sharebar", "shares", "share text", "sharing", "x-share-y", "xshare", "sharedaddyx", "article-share"}
			fs = append(fs, Family{Name: "share", N: size(len(names), 2, 5, 4), Run: func(t *T, i uint64) {
				d := &dec{i}
				n, at, length, where := pick(d, names), []string{"class", "id"}[d.n(2)], []int{20, 120, 499, 500, 501}[d.n(5)], d.n(4)
				p := "<p " + at + `="` + n + `">` + refText("sh", length, min(length/20, 12), "") + "</p>"
				var x string
				switch where {
				case 0:
					x = p
				case 1:
					x = "<section>" + p + refPara("q", 60, 1) + "</section>"
				case 2:
					x = "<section " + at + `="` + n + `">` + refText("sh", length, min(length/20, 12), "") + "</section>"
				case 3:
					x = "<section>" + p + "</section><p>" + refText("af", 50, 1, "") + "</p>"
				}
				c25Judge(t, c25Places[0], x)
			}})
			fs = append(fs, Family{Name: "share-container", N: size(len(names), 2, 4), Run: func(t *T, i uint64) {
				d := &dec{i}
				n, at, k := pick(d, names), []string{"class", "id"}[d.n(2)], d.n(4)
				x := "<section " + at + `="` + n + `">` + refPara("ma", 120, 8) + refPara("mb", 130, 8) + refCount(k, "<p>"+refText("mc#", 100, 3, "")+"</p>") + "</section>"
				refJudge(t, refPage("", x), rOpts{threshold: 100}, readability.CharThreshold(100))
			}})
			// in code, and in figures, at every depth
			deep := []string{"code", "figure", "pre", "blockquote"}
			odd := []string{`<div class="tool"><p>wa</p><p>wb</p></div>`, `<div><a href="http://h.example/l">wa wb wc wd</a> we</div>`, "<ul><li>wa</li><li>wb</li></ul>", `<div><img src="http://h.example/1.png"/><img src="http://h.example/2.png"/> wa</div>`, "<form><p>wa</p><input/><input/></form>", "<table><tr><td>wa</td><td>wb</td></tr></table>"}
			via := []string{"b", "div", "span", "section"}
			fs = append(fs, Family{Name: "depths", N: size(len(deep), len(odd), len(via), 8), Run: func(t *T, i uint64) {
				d := &dec{i}
				h, x, v, n := pick(d, deep), pick(d, odd), pick(d, via), d.n(8)
				for k := 0; k < n; k++ {
					side := ""
					if v == "div" || v == "section" {
						side = fmt.Sprintf("<p>level %c of these, and on</p><p>more</p>", 'a'+k)
					}
					x = "<" + v + ">" + side + x + "</" + v + ">"
				}
				c25Judge(t, c25Places[0], "<"+h+">"+x+"</"+h+">")
			}})
			// share blocks of other scripts
			fs = append(fs, Family{Name: "share-scripts", N: size(4, 13, 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				c, n, k := []string{"k", "é", "語", "😀"}[d.n(4)], 100*d.n(13)+100, d.n(3)
				n += []int{-1, 0, 1}[k]
				c25Judge(t, c25Places[0], `<p class="share">`+strings.Repeat(c, n-12)+", , , , , , </p>")
			}})
			// many headings, some of negative weight
			fs = append(fs, Family{Name: "many-headings", N: size(13, 13, 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				n, m, tag := d.n(13), d.n(13), []string{"h1", "h2", "h3"}[d.n(3)]
				x := ""
				for k := 0; k < n; k++ {
					at := ""
					if k == m || m == 12 || m == 11 && k%2 == 0 {
						at = ` class="promo"`
					}
					x += fmt.Sprintf("<%s%s>Number %c of the headings</%s>", tag, at, 'a'+k, tag) + refPara(fmt.Sprintf("p%c", 'a'+k), 90, 1)
				}
				c25Judge(t, c25Places[0], x)
			}})
			// headings
			hs := []string{"h1", "h2", "h3"}
			hc := []string{"", ` class="meta"`, ` id="promo"`, ` class="text meta"`, ` class="post-title"`, ` class="widget" id="tool"`}
			fs = append(fs, Family{Name: "headings", N: size(len(hs), len(hc), len(hs), len(hc), 2), Run: func(t *T, i uint64) {
				d := &dec{i}
				a, b := pick(d, hs)+pick(d, hc), pick(d, hs)+pick(d, hc)
				w := []string{"First", "Second"}
				x := ""
				for k, h := range []string{a, b} {
					x += "<" + h + ">" + w[k] + " heading of some length</" + h[:2] + ">"
					if k == 0 {
						x += refPara("bt", 90, 1)
					}
				}
				place := c25Places[0]
				if d.b() {
					place = c25Places[1]
				}
				c25Judge(t, place, x)
			}})
			// short blocks of headings of every level, and of what is no heading
			lv := []string{"h1", "h2", "h3", "h4", "h5", "h6", "header", "strong", "h7", "th"}
			fs = append(fs, Family{Name: "heading-levels", N: size(len(lv), len(lv), 5, 5, len(tags)), Run: func(t *T, i uint64) {
				d := &dec{i}
				a, b, la, lb, tag := pick(d, lv), pick(d, lv), []int{1, 8, 12, 20, 24}[d.n(5)], []int{0, 1, 2, 5, 12}[d.n(5)], pick(d, tags)
				x := "<" + a + ">" + strings.Repeat("k", la) + "</" + a + ">"
				if lb > 0 {
					x += "<" + b + ">" + strings.Repeat("m", lb) + "</" + b + ">"
				}
				c25Judge(t, c25Places[0], "<"+tag+">"+x+"</"+tag+">")
			}})
			// what is counted is counted whatever its attributes say
			counted := map[string][]string{
				"input": {` type="text"`, ` type="hidden"`, ` type="submit" value="go"`, ` type="radio" checked="checked"`, ` disabled="disabled"`, ` name="q" id="q"`},
				"img":   {` src="http://h.example/i#.png" width="1" height="1"`, ` src="http://h.example/i#.png" width="640" height="480"`, ` src="http://h.example/i#.png" alt=""`, ` src="http://h.example/i#.png" alt="word"`, ` src="http://h.example/i#.png" class="big"`, ` src="http://h.example/i#.gif" title="t"`, ` srcset="http://h.example/i#.png 2x"`},
				"p":     {` class="text"`, ` id="p#"`, ` lang="en"`, ` title="t"`, ` data-k="v"`, ` dir="rtl"`},
				"li":    {` class="item"`, ` value="3"`, ` id="i#"`, ` data-k="v"`},
			}
			ctags := []string{"input", "img", "p", "li"}
			for _, ct := range ctags {
				ct := ct
				ats := counted[ct]
				fs = append(fs, Family{Name: "counted-" + ct, N: size(len(tags), len(ats), len(ats), 6, 5, 3), Run: func(t *T, i uint64) {
					d := &dec{i}
					tag, a, b, n, p, length := pick(d, tags), pick(d, ats), pick(d, ats), d.n(6), d.n(5), []int{0, 30, 120}[d.n(3)]
					x := refCount(p, "<p>pa#</p>")
					if ct == "img" {
						n++
					}
					k := n
					end := "/>"
					if ct == "p" || ct == "li" {
						end = ">cc#</" + ct + ">"
						if ct == "p" {
							x = refCount(p, `<img src="http://h.example/o#.png"/>`)
						}
					}
					for j := 0; j < k; j++ {
						at := a
						if j%2 == 1 {
							at = b
						}
						x += strings.ReplaceAll("<"+ct+at+end, "#", fmt.Sprint(j))
					}
					if ct == "li" {
						x = "<ul>" + x + refCount(98, "<li>rr#</li>") + "</ul>"
					}
					if length > 0 {
						x += "<b>" + refText("tx", length, 0, "") + "</b>"
					}
					c25Judge(t, c25Places[0], c25Wrap(tag, "", x))
				}})
			}
			// an embed of an allowed place, whichever attribute names it
			eats := []string{`src="U"`, `width="5"`, `data-src="U"`, `title="a frame"`, `name="U"`, `class="text"`, `data="U"`, `value="U"`, `href="U"`}
			etags := []string{"iframe", "embed", "object"}
			eblocks := []string{"form", "fieldset", "div", "ul"}
			fs = append(fs, Family{Name: "embed-attributes", N: size(len(etags), len(eblocks), len(urls), 3) * seqCount(len(eats), 1, 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				e, blk, u, second := pick(d, etags), pick(d, eblocks), pick(d, urls), d.n(3)
				at := ""
				seen := map[int]bool{}
				for _, k := range seqAt(d.i, len(eats), 1, 3) {
					if seen[k] {
						return
					}
					seen[k] = true
					at += " " + eats[k]
				}
				end := "></" + e + ">"
				if e == "embed" {
					end = "/>"
				}
				x := strings.ReplaceAll("<"+e+at+end, "U", u)
				switch second {
				case 1:
					x = `<iframe src="http://a.example/first"></iframe>` + x
				case 2:
					x += `<iframe src="http://a.example/last"></iframe>`
				}
				c25Judge(t, c25Places[0], c25Wrap(blk, "", x+"<p>and</p>"))
			}})
			return fs
		}})
}
