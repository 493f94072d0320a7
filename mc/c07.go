package main

import (
	"fmt"
	"strings"

	readability "github.com/giulianopz/go-readability"
)

// C07: the paragraphs of an ordinary article survive, the clutter around and
// among them does not.

var c07Containers = []string{
	"<article>A</article>", "<div>A</div>", "<div id=\"content\">A</div>", "<div class=\"post\">A</div>", "<main>A</main>", "<div><div>A</div></div>", "<div class=\"x\"><article class=\"y\">A</article></div>", "<div><section id=\"story\"><div>A</div></section></div>", "<table><tr><td>A</td></tr></table>", "<center>A</center>", "<div class=\"article-body\"><div class=\"text\">A</div></div>", "<form>A</form>", "<div class=\"entry\"><div><div><div>A</div></div></div></div>",
}

// clutter outside of the article: words start with clut
var c07Clutter = []string{
	"<ul><li><a href=\"/1\">clut0</a></li><li><a href=\"/2\">clut1</a></li><li><a href=\"/3\">clut2</a></li></ul>",
	"<nav><a href=\"/1\">clut0</a> <a href=\"/2\">clut1</a></nav>",
	"<div class=\"sidebar\"><p>CPROSE</p></div>",
	"<div id=\"comments\" class=\"comment\"><p>CPROSE</p><p>CPROSE</p></div>",
	"<footer><p>clut0 clut1</p></footer>",
	"<div class=\"footer\">clut0 <a href=\"/x\">clut1</a></div>",
	"<div class=\"related\"><h3>clut0</h3><ul><li><a href=\"/1\">clut1</a></li></ul></div>",
	"<div id=\"gdpr-popup\"><p>CPROSE</p></div>",
	"<div class=\"social\"><a href=\"/s\">clut0</a><a href=\"/t\">clut1</a></div>",
	"<div role=\"navigation\"><p>CPROSE</p></div>",
	"<div role=\"complementary\"><p>CPROSE</p><p>CPROSE</p></div>",
	"<div class=\"banner\"><img src=\"ad.png\"/><p>clut0</p></div>",
	"<div style=\"display:none\"><p>CPROSE</p><p>CPROSE</p></div>",
	"<script>var clut0 = \"clut1\";</script>",
	"<style>.clut0{}</style>",
	"<noscript><p>CPROSE</p></noscript>",
	"<aside><p>clut0 clut1</p></aside>",
	"<div><a href=\"/p\">clut0</a> | <a href=\"/q\">clut1</a></div>",
	"<div class=\"pagination\"><a href=\"?p=2\">clut0</a></div>",
	"<div class=\"breadcrumbs\"><a href=\"/\">clut0</a> / <a href=\"/a\">clut1</a></div>",
	"<div id=\"disqus_thread\"><p>CPROSE</p></div>",
	"<div class=\"menu\"><p>CPROSE</p></div>",
	"<iframe src=\"http://ads.example/\"></iframe>",
	"<div class=\"ad-break\">clut0</div>",
	"<div class=\"sponsor\"><p>CPROSE</p></div>",
	"<div aria-modal=\"true\" role=\"dialog\"><p>CPROSE</p></div>",
	"<div class=\"rss\"><a href=\"/feed\">clut0</a></div>",
	"<div class=\"skyscraper\"><p>CPROSE</p></div>",
	"<div class=\"replies\"><p>CPROSE</p></div>",
	"<button>clut0</button>",
	"<script>for (i=0;i<n;i++) { clut0(); }</script>",
	"<script>document.write('<div>clut0'); if (a<b && c>d) clut1;</script>",
	"<script>var s = \"<!-- clut0\";</script>",
	"<style>a>b{content:'<clut0>'}</style>",
}

// clutter inside of the article
var c07Inner = []string{
	"<div class=\"share\"><a href=\"/s\">clut0</a></div>",
	"<div class=\"sharedaddy\"><p>clut0</p><p>clut1</p></div>",
	"<aside><p>CPROSE</p></aside>",
	"<footer><p>CPROSE</p></footer>",
	"<div class=\"related\"><p>CPROSE</p><p>clut0</p></div>",
	"<form><p>clut0</p><input/><input/></form>",
	"<button>clut0</button>",
	"<select><option>clut0</option></select>",
	"<textarea>clut0</textarea>",
	"<div><a href=\"/1\">clut0</a> <a href=\"/2\">clut1</a></div>",
	"<div class=\"tags\"><ul><li><a href=\"/1\">clut0 clut1</a></li></ul><p>clut2</p></div>",
	"<div class=\"promo\"><p>CPROSE</p><p>CPROSE</p></div>",
	"<div id=\"widget\"><p>clut0</p><p>clut1</p></div>",
	"<script>clut0</script>",
	"<script>if (a<b) { clut0 } else { x='<p>' }</script>",
	"<div hidden=\"\"><p>CPROSE</p></div>",
	"<iframe src=\"http://ads.example/\"></iframe>",
	"<h2 class=\"promo\">clut0</h2>",
	"<div class=\"outbrain\"><p>CPROSE</p><h3>clut0</h3></div>",
	"<table class=\"shopping\"><tr><td>clut0</td></tr></table>",
	"<object data=\"x\"><p>clut0</p></object>",
	"<fieldset><p>clut0</p><input/></fieldset>",
	"<noscript><p>CPROSE</p></noscript>",
	"<p style=\"display:none\">CPROSE</p>",
	"<div class=\"comment\"><p>CPROSE</p><p>clut0</p></div>",
	"<link rel=\"x\" href=\"clut0\"/>",
}

// parts of the article: words start with art
var c07Parts = []string{
	"<p>PROSE</p>",
	"<p>PROSE <a href=\"/l\">Q8</a> <b>Q9</b></p>",
	"<h2>Q8 Q9</h2><p>PROSE</p>",
	"<blockquote><p>PROSE</p></blockquote>",
	"<p>PROSE<br/>Q9 Q8</p>",
	"<pre>PROSE</pre>",
	"<p><em>PROSE</em></p>",
	"<p>Q8 Q9.</p><p>PROSE</p>",
	"<ul><li>PROSE</li><li>Q8 Q9, Q7</li></ul><p>Q6</p>",
	"<figure><img src=\"f.jpg\"/><figcaption>Q8</figcaption></figure><p>PROSE</p>",
	"<div>PROSE</div>",
	"<div><p>PROSE</p><p>Q8 Q9, Q7, Q6, Q5.</p></div>",
	"<p><span>PROSE</span></p>",
	"<p><img src=\"p.jpg\"/></p><p>PROSE</p>",
	"<p>PROSE é漢字</p>",
}

// the words which mark furniture
var c07Marks = []string{"-ad-", "ai2html", "banner", "breadcrumbs", "combx", "comment", "community", "cover-wrap", "disqus", "extra", "footer", "gdpr", "header", "legends", "menu", "related", "remark", "replies", "rss", "shoutbox", "sidebar", "skyscraper", "social", "sponsor", "supplemental", "ad-break", "agegate", "pagination", "pager", "popup", "yom-remote"}

// c07Plain are names which mark neither furniture nor content of low weight.
var c07Plain = func() (out []string) {
	for _, w := range strings.Fields("teaser intro lead lede summary abstract excerpt standfirst dek deck prose copy story text post entry hentry h-entry news item card block box row col grid container wrapper wrap inner outer center left right top bottom first last odd even section chapter part page paragraph para p1 note quote pullquote callout highlight figure image photo picture video player gallery slide slider carousel hero feature featured teaser-text description details overview background caption credit title headline subtitle heading subhead kicker topic topics theme category label badge date time published updated timestamp read more continue next previous full wide narrow large small medium big tiny dark light primary secondary tertiary default active open closed visible shown js no-js loaded lazy clearfix group cf odd-row content main body article column and shadow entry-summary story-part article__text c-block o-grid u-mb rich-text markdown wysiwyg field field-item node view panel pane region zone area layout module component template hello foo bar baz data info help faq doc docs manual guide tutorial recipe review report story-1 blog weblog archive book poem song letter speech interview essay opinion column-text analysis sport culture politics world local tech science health travel food style life money business video-text transcript lyrics abstract-text preview print screen mobile desktop tablet responsive flex float fixed sticky scrolling- anchor target source ref reference references cite citation bibliography appendix glossary index toc sub super inline standalone embedded enhanced plain pre code snippet example demo sample test answer question thread forum topic-text message mail chat reply-text profile bio people person user member team staff event calendar place map price product shop cart order premium paywall subscriber free trial login-text account public private draft live archived old new special extra-text") {
		if !rAny(w, c07Marks) && !rIsNegative(w) && !rAny(w, rBylines) && !rShare.MatchString(w) {
			out = append(out, w)
		}
	}
	return
}()

func c07Part(k, j int) string {
	tag := fmt.Sprintf("art%cx", 'a'+j)
	return strings.NewReplacer("PROSE", prose(tag, 200), "Q", tag+"q").Replace(c07Parts[k])
}

func c07Clut(s string) string { return strings.ReplaceAll(s, "CPROSE", prose("clutp", 170)) }

func c07Judge(t *T, src, article string, opts ...readability.Option) {
	t.Begin("%s", src)
	res := t.MustParse(src, docURI, opts...)
	if res == nil {
		return
	}
	t.State(src)
	t.Outcome(res.TextContent)
	var want []string
	for _, w := range wordsOf(strings.Join(strings.FieldsFunc(stripTags(article), func(r rune) bool { return r == ' ' }), " ")) {
		if strings.HasPrefix(w, "art") {
			want = append(want, w)
		}
	}
	var got []string
	for _, w := range wordsOf(stripTags(res.HTMLContent)) {
		if strings.HasPrefix(w, "clut") {
			t.Fail("clutter %q made it into the article: %s", w, short(res.HTMLContent))
			return
		}
		if strings.HasPrefix(w, "art") {
			got = append(got, w)
		}
	}
	if strings.Join(got, " ") != strings.Join(want, " ") {
		miss := ""
		in := map[string]bool{}
		for _, g := range got {
			in[g] = true
		}
		for _, w := range want {
			if !in[w] {
				miss = w
				break
			}
		}
		t.Fail("the article is not complete and in order (first missing word: %q): %s", miss, short(res.HTMLContent))
	}
}

// stripTags returns the text with a blank for every tag.
func stripTags(s string) string {
	var b strings.Builder
	in := false
	for _, c := range s {
		switch {
		case c == '<':
			in = true
			b.WriteByte(' ')
		case c == '>':
			in = false
		case !in:
			b.WriteRune(c)
		}
	}
	return b.String()
}

func init() {
	register(&Prop{ID: "C07", Level: "exploration",
		Rule: "every container x article shape x pair of clutter blocks around it x clutter block inside of it, within the stated sizes; non-trivial: every case (each is a distinct page with an article above the default threshold)",
		Families: func(tier string) []Family {
			var fs []Family
			nk, nc, ni, np := len(c07Containers), len(c07Clutter), len(c07Inner), len(c07Parts)
			std := c07Part(0, 0) + c07Part(0, 1) + c07Part(0, 2) + c07Part(0, 3)
			wrap := func(k int, art string) string { return strings.Replace(c07Containers[k], "A", art, 1) }
			fs = append(fs, Family{Name: "around", N: size(nk, nc+1, nc+1), Run: func(t *T, i uint64) {
				d := &dec{i}
				b, a, k := d.n(nc+1), d.n(nc+1), d.n(nk)
				var before, after string
				if a > 0 {
					before = c07Clut(c07Clutter[a-1])
				}
				if b > 0 {
					after = c07Clut(c07Clutter[b-1])
				}
				c07Judge(t, page("<title>site name</title>", before+wrap(k, std)+after), std)
			}})
			fs = append(fs, Family{Name: "around-wrapped", N: size(nk, nc, nc, 2), Run: func(t *T, i uint64) {
				d := &dec{i}
				f, b, a, k := d.n(2), d.n(nc), d.n(nc), d.n(nk)
				before, after := c07Clut(c07Clutter[a]), c07Clut(c07Clutter[b])
				body := "<div id=\"wrap\">" + before + wrap(k, std) + after + "</div>"
				if f == 1 {
					body = "<div class=\"row\"><div>" + before + "</div>" + wrap(k, std) + "</div>" + after
				}
				c07Judge(t, page("<title>site name</title>", body), std)
			}})
			fs = append(fs, Family{Name: "inside", N: size(nk, ni, 4, nc+1), Run: func(t *T, i uint64) {
				d := &dec{i}
				a, pos, in, k := d.n(nc+1), d.n(4), d.n(ni), d.n(nk)
				var parts strings.Builder
				for j := 0; j < 4; j++ {
					if j == pos {
						parts.WriteString(c07Clut(c07Inner[in]))
					}
					parts.WriteString(c07Part(0, j))
				}
				after := ""
				if a > 0 {
					after = c07Clut(c07Clutter[a-1])
				}
				c07Judge(t, page("", wrap(k, parts.String())+after), std)
			}})
			// what is never part of an article, at the side of a paragraph of it, in every container
			never := []string{"<aside><p>CPROSE</p></aside>", "<footer><p>CPROSE</p></footer>", "<footer>clut0</footer>", "<aside>clut0</aside>", "<button>clut0</button>", "<select><option>clut0</option></select>", "<textarea>clut0</textarea>", "<script>clut0</script>", "<p hidden=\"\">CPROSE</p>", "<p style=\"display:none\">CPROSE</p>", "<iframe src=\"http://ads.example/\">clut0</iframe>", "<noscript><p>CPROSE</p></noscript>", "<object data=\"x\"><p>clut0</p></object>", "<div role=\"navigation\"><p>CPROSE</p></div>", "<div class=\"sidebar\"><p>CPROSE</p></div>"}
			holders := []string{"blockquote", "figure", "section", "div", "article", "center", "details", "main", "header", "address", "hgroup", "x-y", "dl", "map"}
			fs = append(fs, Family{Name: "inside-held", N: size(len(never), len(holders), len(holders)+1, 4, 2), Run: func(t *T, i uint64) {
				d := &dec{i}
				n, h, h2, pos, before := pick(d, never), pick(d, holders), d.n(len(holders)+1), d.n(4), d.b()
				var parts strings.Builder
				for j := 0; j < 4; j++ {
					x := c07Part(0, j)
					if j == pos {
						if before {
							x = c07Clut(n) + x
						} else {
							x += c07Clut(n)
						}
						x = "<" + h + ">" + x + "</" + h + ">"
						if h2 > 0 {
							x = "<" + holders[h2-1] + ">" + x + "</" + holders[h2-1] + ">"
						}
					}
					parts.WriteString(x)
				}
				c07Judge(t, page("", wrap(0, parts.String())), std)
			}})
			fs = append(fs, Family{Name: "inside-pairs", N: size(3, ni, ni, 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				pos, i2, i1, k := d.n(3), d.n(ni), d.n(ni), d.n(3)
				art := c07Part(0, 0) + c07Clut(c07Inner[i1]) + c07Part(0, 1)
				switch pos {
				case 0:
					art = c07Part(0, 0) + c07Clut(c07Inner[i1]) + c07Clut(c07Inner[i2]) + c07Part(0, 1) + c07Part(0, 2) + c07Part(0, 3)
				case 1:
					art += c07Part(0, 2) + c07Clut(c07Inner[i2]) + c07Part(0, 3)
				case 2:
					art = c07Clut(c07Inner[i1]) + std + c07Clut(c07Inner[i2])
				}
				c07Judge(t, page("", wrap(k, art)), std)
			}})
			np3 := []int{0, 4, 7, 8, 9, 10, 14}
			_ = np3
			fs = append(fs, Family{Name: "shapes", N: size(nk, np, np, np), Run: func(t *T, i uint64) {
				d := &dec{i}
				c, b, a, k := d.n(np), d.n(np), d.n(np), d.n(nk)
				art := c07Part(0, 0) + c07Part(a, 1) + c07Part(b, 2) + c07Part(c, 3) + c07Part(0, 4)
				c07Judge(t, page("", c07Clut(c07Clutter[0])+wrap(k, art)+c07Clut(c07Clutter[2])), art)
			}})
			// every word that marks furniture, on every kind of element, at every place
			var marks []string
			for _, w := range c07Marks {
				marks = append(marks, "class=\""+w+"\"", "id=\""+w+"\"", "class=\"box "+strings.ToUpper(w)+"-2\" id=\"b7\"")
			}
			for _, w := range []string{"menu", "menubar", "complementary", "navigation", "alert", "alertdialog", "dialog"} {
				marks = append(marks, "role=\""+w+"\"", "class=\"box\" role=\""+w+"\"")
			}
			marks = append(marks, "aria-modal=\"true\" role=\"dialog\"", "role=\"dialog\" aria-modal=\"true\" id=\"main\"")
			shapes := []string{"<div M><p>CPROSE</p></div>", "<section M><p>CPROSE</p><p>clut0</p></section>", "<ul M><li>clut0</li><li>CPROSE</li></ul>", "<p M>CPROSE</p>", "<div M>clut0 clut1</div>", "<div M><a href=\"/x\">clut0</a> CPROSE</div>", "<table M><tr><td>clut0</td><td>CPROSE</td></tr></table>", "<h3 M>clut0 clut1</h3>", "<span M>clut0</span>", "<div M><div><div><p>CPROSE</p><p>CPROSE</p></div></div></div>", "<blockquote M>CPROSE</blockquote>", "<figure M><img src=\"x.png\"/><figcaption>clut0</figcaption></figure>", "<dl M><dt>clut0</dt><dd>clut1</dd></dl>", "<header M><p>CPROSE</p></header>", "<form M><p>clut0</p></form>"}
			fs = append(fs, Family{Name: "marked", N: size(len(marks), len(shapes), 3, 4), Run: func(t *T, i uint64) {
				d := &dec{i}
				pos, k, sh, m := d.n(4), d.n(3), pick(d, shapes), pick(d, marks)
				k = []int{0, 1, 5}[k]
				x := c07Clut(strings.Replace(sh, "M", m, 1))
				var body string
				switch pos {
				case 0:
					body = x + wrap(k, std)
				case 1:
					body = wrap(k, std) + x
				case 2:
					body = wrap(k, c07Part(0, 0)+x+c07Part(0, 1)+c07Part(0, 2)+c07Part(0, 3))
				case 3:
					body = wrap(k, std+"<div><p>"+prose("arty", 120)+"</p>"+x+"</div>")
				}
				art := std
				if pos == 3 {
					art += "<p>" + prose("arty", 120) + "</p>"
				}
				c07Judge(t, page("", body), art)
			}})
			// sentences of every length, inside of the container and loose beside it
			fs = append(fs, Family{Name: "sentences", N: size(nk, 60, 4, 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				end, pos, l, k := d.n(3), d.n(4), d.n(60), d.n(nk)
				if (pos == 1 || pos == 2) && (k == 8 || k == 11) {
					return // beside a cell or a form
				}
				txt := prose("artz", 3+l*5)
				switch end {
				case 0:
					txt += "."
				case 1:
					txt = "artza. " + txt[strings.IndexByte(txt+" ", ' ')+0:]
				case 2:
					if len(txt) <= 80 || pos == 1 || pos == 2 {
						return
					}
				}
				x := "<p>" + strings.TrimSpace(txt) + "</p>"
				var body, art string
				switch pos {
				case 0:
					art = c07Part(0, 0) + x + c07Part(0, 1) + c07Part(0, 2) + c07Part(0, 3)
					body = wrap(k, art)
				case 1:
					art = std + x
					body = "<div id=\"outer\">" + wrap(k, std) + x + "</div>"
				case 2:
					art = x + std
					body = "<div id=\"outer\">" + x + wrap(k, std) + "</div>"
				case 3:
					art = x + std + x
					body = wrap(k, art)
				}
				c07Judge(t, page("", body), art)
			}})
			// paragraphs of any length and number
			fs = append(fs, Family{Name: "long", N: size(nk, 9, 5, 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				k, l, n, where := d.n(nk), []int{500, 900, 1500, 2100, 3000, 4200, 8000, 16000, 40000}[d.n(9)], []int{1, 2, 3, 40, 120}[d.n(5)], d.n(3)
				if l*n > 200000 || n == 1 && where == 0 {
					return
				}
				var b strings.Builder
				for j := 0; j < n; j++ {
					b.WriteString("<p>" + prose(fmt.Sprintf("art%c%cx", 'a'+j/26, 'a'+j%26), l) + "</p>")
				}
				art := b.String()
				body := wrap(k, art)
				switch where {
				case 1: // one long paragraph among short ones
					art = c07Part(0, 0) + art + c07Part(0, 1)
					body = wrap(k, art)
				case 2: // and beside the container
					if k == 8 || k == 11 {
						return
					}
					side := "<p>" + prose("artzz", min(l, 3000)) + "</p>"
					body, art = "<div>"+body+side+"</div>", art+side
				}
				c07Judge(t, page("", c07Clut(c07Clutter[0])+body+c07Clut(c07Clutter[3])), art)
			}})
			// names that mark nothing
			fs = append(fs, Family{Name: "plain-names", N: size(len(c07Plain), 6, 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				n, where, at := pick(d, c07Plain), d.n(6), []string{` class="N"`, ` id="N"`, ` class="box N-2 x"`}[d.n(3)]
				at = strings.ReplaceAll(at, "N", n)
				var art string
				switch where {
				case 0:
					art = "<div" + at + ">" + std + "</div>"
				case 1:
					art = "<div>" + c07Part(0, 0) + c07Part(0, 1) + "<p" + at + ">" + prose("artyx", 200) + "</p>" + c07Part(0, 2) + c07Part(0, 3) + "</div>"
				case 2:
					art = "<article>" + c07Part(0, 0) + "<div" + at + ">" + c07Part(0, 1) + c07Part(0, 2) + "</div>" + c07Part(0, 3) + "</article>"
				case 3:
					art = "<section" + at + "><div>" + std + "</div></section>"
				case 4:
					art = "<div>" + c07Part(0, 0) + "<section" + at + ">" + c07Part(0, 1) + c07Part(0, 2) + "</section><blockquote" + at + ">" + prose("artyx", 120) + "</blockquote>" + c07Part(0, 3) + "</div>"
				case 5:
					art = "<main" + at + ">" + c07Part(0, 0) + "<p>" + prose("artyx", 100) + " <span" + at + ">artzx artzy</span></p>" + c07Part(0, 1) + c07Part(0, 2) + c07Part(0, 3) + "</main>"
				}
				c07Judge(t, page("", c07Clut(c07Clutter[0])+art+c07Clut(c07Clutter[3])), art)
			}})
			fs = append(fs, Family{Name: "lengths", N: size(nk, 10, 12), Run: func(t *T, i uint64) {
				d := &dec{i}
				l, n, k := d.n(12)*40+120, d.n(10)+2, d.n(nk)
				if l*n < 560 {
					return
				}
				var b strings.Builder
				for j := 0; j < n; j++ {
					b.WriteString("<p>" + prose(fmt.Sprintf("art%cx", 'a'+j), l) + "</p>")
				}
				c07Judge(t, page("", c07Clut(c07Clutter[0])+wrap(k, b.String())+c07Clut(c07Clutter[3])), b.String())
			}})
			return fs
		}})
}
