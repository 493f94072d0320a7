package main

import (
	"fmt"
	"regexp"
	"strings"

	readability "github.com/giulianopz/go-readability"
	"golang.org/x/net/html"
)

// C06: the text of the article is an in-order, duplicate-free selection of the
// words of the page.

var tagStart = regexp.MustCompile(`<[a-z][a-z0-9]*`)

// Every word of a document is distinct (Q is replaced per block), and always
// surrounded by blanks or tags.
var c06Blocks = []string{
	"<p>PROSE</p>", "<p> Q0 Q1 </p>", "<div> PROSE </div>", "<div> Q0 <p>PROSE</p> Q9 </div>", "<div><p>PROSE</p></div>", "<div><div> Q0 </div><div> PROSE </div></div>",
	" Q0 <br/><br/> Q1 <br/> Q2 <br/> <br/><br/> Q3 ", "<p> Q0 <br/><br/> Q1 </p>", "<div> Q0 <br/> Q1 <br/><br/> PROSE </div>",
	"<ul><li> Q0 </li><li> Q1 <b> Q2 </b></li></ul>", "<table><tr><td> Q0 </td><td> PROSE </td></tr></table>", "<table><tr><td> PROSE </td></tr></table>", "<table><tbody><tr><td> Q0 <p>PROSE</p></td></tr></tbody></table>",
	"<section><h2> Q0 </h2><p>PROSE</p></section>", "<article> Q0 <p>PROSE</p></article>", "<a href=\"javascript:x\"> Q0 </a>", "<p> Q0 <a href=\"javascript:x\"> Q1 <i> Q2 </i> Q3 </a> Q4 </p>",
	"<div class=\"sidebar\"><p>PROSE</p></div>", "<div class=\"comment\"> Q0 Q1 </div>", "<p class=\"byline\"> Q0 Q1 </p>", "<h1> Q0 Q1 </h1>", "<h2> Q0 Q1 Q2 </h2>", "<span> Q0 </span> <em> Q1 </em> Q2 <div> Q3 </div> Q4 ",
	"<blockquote> PROSE </blockquote>", "<pre> Q0\n Q1 </pre>", "<font> Q0 <font> Q1 </font></font>", "<noscript> Q0 <img src=\"a.png\"/></noscript>", "<img src=\"x.png\"/><noscript><img src=\"a.png\" alt=\" Q0 \"/></noscript> Q1 ",
	"<figure data-src=\"z.jpg\"><figcaption> Q0 </figcaption></figure>", "<form> Q0 <p>PROSE</p></form>", "<div><section><div> PROSE </div></section></div>", "<div hidden=\"\"> Q0 PROSE </div>", "<aside> Q0 </aside> Q1 ", "<script> Q0 </script> Q1 ", "<dl><dt> Q0 </dt><dd> PROSE </dd></dl>", "<header> Q0 </header>", "<div><a href=\"/x\"> PROSE </a></div>", "<div><![CDATA[ Q0 <Q5> Q1 ]]></div>", "<div> Q0 <!-- Q1 --> Q2 </div>", "<p></p>", "<td> PROSE </td>", "<ol><li><p>PROSE</p></li></ol>", "<div> &lt; Q0 &gt; Q1 &amp; Q2 </div>", "<svg><title> Q0 </title></svg>", "<p style=\"x\"> <span><b> PROSE </b></span> </p>",
}

// srcWords lists the words of the page in document order (comments excluded).
func srcWords(body string) map[string]int {
	z := html.NewTokenizer(strings.NewReader(body))
	z.AllowCDATA(true)
	pos := map[string]int{}
	add := func(s string) {
		for _, w := range wordsOf(s) {
			if _, dup := pos[w]; !dup {
				pos[w] = len(pos)
			}
		}
	}
	for {
		switch z.Next() {
		case html.ErrorToken:
			return pos
		case html.TextToken:
			raw := string(z.Raw())
			if strings.HasPrefix(raw, "<![CDATA[") {
				add(strings.TrimSuffix(strings.TrimPrefix(raw, "<![CDATA["), "]]>"))
			} else {
				add(html.UnescapeString(raw))
			}
		case html.StartTagToken:
			z.NextIsNotRawText()
		}
	}
}

func inOrder(t *T, text string, pos map[string]int, what string) int {
	last, n := -1, 0
	for _, w := range wordsOf(text) {
		p, ok := pos[w]
		if !ok {
			t.Fail("%q in the %s is not a word of the page: %s", w, what, short(text))
			return n
		}
		if p == last {
			t.Fail("%q is repeated in the %s: %s", w, what, short(text))
			return n
		}
		if p < last {
			t.Fail("%q is out of order (or repeated) in the %s: %s", w, what, short(text))
			return n
		}
		last = p
		n++
	}
	return n
}

// stripWords is the text of a piece of markup, every tag being a blank.
func stripWords(m string) string {
	var b strings.Builder
	z := html.NewTokenizer(strings.NewReader(m))
	for {
		switch z.Next() {
		case html.ErrorToken:
			return b.String()
		case html.TextToken:
			b.Write(z.Text())
		default:
			b.WriteByte(' ')
		}
	}
}

func c06Render(b string, j int) string {
	tag := tagN(j)
	return strings.NewReplacer("PROSE", prose(tag+"p", 150), "Q", tag).Replace(b)
}

func init() {
	register(&Prop{ID: "C06", Level: "exploration",
		Rule: "every sequence of up to 3 (quick) or 4 (thorough) blocks, plain and nested, at thresholds which select different passes; every word of a page is distinct; non-trivial: a result with at least one word",
		Families: func(tier string) []Family {
			l := 3
			if tier == "thorough" {
				l = 4
			}
			nb := len(c06Blocks)
			thr := []int{1, 200, 500, 1 << 30}
			if tier == "quick" {
				thr = []int{1, 300, 1 << 30}
			}
			run := func(t *T, body string, opts ...readability.Option) {
				src := page("<title>title0 title1</title>", body)
				t.Begin("%s", src)
				res, err := t.Parse(src, docURI, opts...)
				if err != nil {
					t.Outcome(err.Error())
					return
				}
				pos := srcWords(body)
				n := inOrder(t, res.TextContent, pos, "text")
				inOrder(t, stripWords(res.HTMLContent), pos, "content")
				inOrder(t, res.Excerpt, pos, "excerpt")
				inOrder(t, res.Byline, pos, "byline")
				if n > 0 {
					t.State(src)
				}
				t.Outcome(res.TextContent)
			}
			var fs []Family
			fs = append(fs, Family{Name: "sequences", N: seqCount(nb, 1, l) * uint64(len(thr)), Run: func(t *T, i uint64) {
				d := &dec{i}
				th := pick(d, thr)
				var b strings.Builder
				for j, k := range seqAt(d.i, nb, 1, l) {
					b.WriteString(c06Render(c06Blocks[k], j))
				}
				run(t, b.String(), readability.CharThreshold(th))
			}})
			// blocks inside of containers next to blocks
			ct := []string{"<div>X</div>", "<div><div>X</div></div>", "<section>X</section>", "<article class=\"content\">X</article>", "<td>X</td>", "<div class=\"comment\">X</div>", "<blockquote>X</blockquote>", "<center>X</center>", "<div id=\"main\"><span>X</span></div>", "<table><tr><td>X</td></tr></table>", "<ul><li>X</li></ul>", "<font>X</font>", "<p>X</p>"}
			if tier == "quick" {
				ct = []string{ct[0], ct[5], ct[9], ct[11], ct[12]}
			}
			fs = append(fs, Family{Name: "containers", N: size(nb, nb, len(ct), len(ct), 2), Run: func(t *T, i uint64) {
				d := &dec{i}
				th := []int{1, 1 << 30}[d.n(2)]
				c2, c1, b2, b1 := pick(d, ct), pick(d, ct), pick(d, c06Blocks), pick(d, c06Blocks)
				in := strings.Replace(c2, "X", c06Render(b2, 1)+c06Render(c06Blocks[0], 2), 1)
				run(t, strings.Replace(c1, "X", c06Render(b1, 0)+in, 1), readability.CharThreshold(th))
			}})
			names := minedNames()
			fs = append(fs, Family{Name: "mined-elements", N: size(len(names), 4, nb), Run: func(t *T, i uint64) {
				d := &dec{i}
				b := pick(d, c06Blocks)
				k, n := d.n(4), pick(d, names)
				switch n {
				case "title", "textarea", "iframe", "html", "body", "head", "noembed", "xmp", "style", "script", "noscript":
					return
				}
				in := c06Render(b, 0) + c06Render(c06Blocks[0], 1)
				switch k {
				case 0:
					run(t, "<"+n+">"+in+"</"+n+">"+c06Render(c06Blocks[0], 2))
				case 1:
					run(t, "<div class=\""+n+"\">"+in+"</div>"+c06Render(c06Blocks[0], 2)+"<div class=\""+n+"\">"+c06Render(c06Blocks[4], 3)+"</div>")
				case 2:
					run(t, "<div id=\""+n+"\">"+in+"</div>"+c06Render(c06Blocks[0], 2), readability.CharThreshold(1<<30))
				case 3:
					run(t, "<p>"+in+"<"+n+"> ew0 </"+n+"> ew1 </p>"+c06Render(c06Blocks[0], 2), readability.CharThreshold(300))
				}
			}})
			// the words of attributes are no words of the text
			ats := []string{"title", "alt", "aria-label", "summary", "label", "value", "placeholder", "data-caption", "content", "name", "cite", "abbr", "data-title", "aria-description", "data-text", "itemprop", "longdesc", "datetime", "headers", "itemid"}
			extra := []string{"", " data-src=\"z.jpg\"", " data-srcset=\"z.jpg 1x\"", " class=\"lazy\""}
			more := append([]string{"<figure> Q0 </figure>", "<figure></figure><p>PROSE</p>", "<p> Q0 <picture></picture></p>", "<img src=\"y.jpg\"/><p>PROSE</p>", "<p> <video></video> <audio></audio> Q0 </p>", "<abbr> Q0 </abbr> <time> Q1 </time> <q> Q2 </q>", "<svg> Q0 </svg>",
				"<p> Q0 <a href=\"javascript:x\"></a> Q1 <a href=\"y\"></a> Q2 <a href=\"javascript:x\"><img src=\"i.png\"/></a></p>", "<p> Q0 <iframe src=\"//www.youtube.com/x\"></iframe></p>", "<p>PROSE</p><object data=\"//www.youtube.com/x\"></object>", "<p>PROSE</p><table><tr><td></td><td> Q0 </td></tr></table>", "<p></p> <div></div> <span></span> Q0 <p>PROSE</p>", "<p>PROSE</p><img/><noscript><img src=\"a.png\"/></noscript>", "<p>PROSE</p><ul><li></li><li> Q0 </li></ul>", "<h2></h2><h1></h1><p>PROSE</p><button></button><input/><select></select>", "<p>PROSE</p><br/><br/><hr/><p> Q0 </p>", "<table><caption></caption><tr><th></th><td> Q0 </td></tr></table><p>PROSE</p>", "<p class=\"byline\"></p><p rel=\"author\"></p><p>PROSE</p>"}, c06Blocks...)
			fs = append(fs, Family{Name: "attributes", N: size(len(more), len(ats), len(extra), 2, 2), Run: func(t *T, i uint64) {
				d := &dec{i}
				th, all, ex, at, b := []int{1, 1 << 30}[d.n(2)], d.n(2), pick(d, extra), pick(d, ats), pick(d, more)
				n := 0
				b = tagStart.ReplaceAllStringFunc(b, func(m string) string {
					if n++; n > 1 && all == 0 || ex != "" && strings.Contains(b, "class=") {
						return m
					}
					return m + " " + at + "=\"attr0 attr1 attr2 attr3\"" + ex
				})
				run(t, c06Render(b, 0)+c06Render(c06Blocks[0], 1), readability.CharThreshold(th))
			}})
			// every character inside of words, bare and as a reference
			var chars []rune
			for c := rune(1); c < 0x3100; c++ {
				if c != '\r' && c != '<' && c != '&' && (c < 0x250 || c >= 0x2000 || c%8 == 0) {
					chars = append(chars, c)
				}
			}
			for c := rune(0xfe00); c < 0x10000; c++ {
				chars = append(chars, c)
			}
			chars = append(chars, 0xd7ff, 0xe000, 0x10000, 0x1f469, 0x1f1e6, 0xe0001, 0xe0100, 0x10ffff)
			fs = append(fs, Family{Name: "characters", N: size(len(chars), 3, 2), Run: func(t *T, i uint64) {
				d := &dec{i}
				x := string(chars[d.n(len(chars))])
				f, ref := d.n(3), d.b()
				if ref {
					if x < " " || x >= "\u0080" && x < "\u00a0" {
						return
					}
					x = fmt.Sprintf("&#%d;", []rune(x)[0])
				}
				w := "ca" + x + "cb c" + x + x + "d ce "
				switch f {
				case 0:
					run(t, "<p>"+w+" "+prose("aa", 200)+"</p><p>"+prose("bb", 200)+"</p>", readability.CharThreshold(100))
				case 1:
					run(t, "<div>"+prose("aa", 200)+" "+w+"</div><pre> cf"+x+"cg </pre>", readability.CharThreshold(100))
				case 2:
					run(t, "<article><p>"+prose("aa", 200)+"</p><ul><li>"+w+"</li><li>"+prose("bb", 90)+"</li></ul></article>", readability.CharThreshold(100))
				}
			}})
			// how many candidates compete
			fs = append(fs, Family{Name: "candidates", N: size(7, 4, 6, nb), Run: func(t *T, i uint64) {
				d := &dec{i}
				b := pick(d, c06Blocks)
				depth, nt, k := d.n(6), []int{1, 2, 5, 20}[d.n(4)], d.n(7)+1
				var s strings.Builder
				for j := 0; j < k; j++ {
					s.WriteString("<div class=\"post\">" + strings.Repeat("<div>", depth/2) + c06Render("<p>PROSE</p>", 2*j) + c06Render(b, 2*j+1) + strings.Repeat("</div>", depth/2) + "</div>")
				}
				body := s.String()
				if depth%2 == 1 {
					body = "<div>" + body + "</div>"
				}
				run(t, body, readability.NTopCandidates(nt), readability.CharThreshold([]int{1, 500, 1 << 30}[k%3]))
			}})
			return fs
		}})
}
