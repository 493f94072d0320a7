package main

import (
	"fmt"
	"regexp"
	"strings"
	"unicode/utf8"

	readability "github.com/giulianopz/go-readability"
)

// C08: the character threshold steers the retries.

var blanks2 = regexp.MustCompile(`\s{2,}`)

// textLen is the length thresholds are compared with: characters of the text,
// trimmed, runs of blanks counted as one.
func textLen(s string) int {
	return utf8.RuneCountInString(blanks2.ReplaceAllString(strings.TrimSpace(s), " "))
}

var c08Blocks = []string{
	"<p>PROSE</p>", "<p>Q0 Q1</p>", "<div class=\"sidebar\"><p>PROSE</p></div>", "<div class=\"comment\"><p>PROSE</p><p>PROSE2</p></div>", "<div class=\"promo\"><p>PROSE</p><p>PROSE2</p></div>", "<div class=\"content\"><p>PROSE</p><p>PROSE2</p></div>", "<div><a href=\"/1\">PROSE</a> Q0</div>", "<ul><li><a href=\"/x\">Q0 Q1 Q2</a></li><li>Q3</li></ul>", "<div><p>PROSE</p><p>PROSE2</p></div>", "<h2 class=\"widget\">Q0 Q1</h2>", "<div class=\"byline\">Q0</div>", "<section><p>PROSE</p></section>", "<table><tr><td>Q0</td></tr></table>", "<form><input/><input/><p>PROSE</p></form>", "<p>é漢字é漢字é漢字é漢字é漢字é漢字é漢字é漢字é漢字é漢字é漢字, Q0</p>", "<h1>tit0 tit1 tit2</h1>", "<div class=\"related hidden\"><p>PROSE</p><p>Q0</p><p>Q1</p></div>", "<div class=\"share\"><p>Q0</p><p>Q1</p></div>", "<div class=\"footer\">PROSE</div>", "<p hidden=\"\">PROSE</p>",
}

func c08Render(b string, j int) string {
	tag := tagN(j)
	return strings.NewReplacer("PROSE2", prose(tag+"s", 90), "PROSE", prose(tag+"p", 130), "Q", tag).Replace(b)
}

func init() {
	register(&Prop{ID: "C08", Level: "model_checking",
		Rule: "for every sequence of up to 3 (quick) or 4 (thorough) blocks the thresholds are swept: the model is the step function of the passes, and every step is checked on both of its ends; non-trivial: more than one pass length was observed, or a distinct page",
		Families: func(tier string) []Family {
			l := 3
			if tier == "thorough" {
				l = 4
			}
			nb := len(c08Blocks)
			var fs []Family
			sweep := func(t *T, src string) {
				t.Begin("%s", src)
				get := func(th int) (string, int, bool) {
					res, err := t.Parse(src, docURI, readability.CharThreshold(th))
					t.Trace()
					if err != nil {
						return "", 0, false
					}
					return res.HTMLContent, textLen(res.TextContent), true
				}
				th, record := 1, 0
				steps := 0
				for {
					h, n, ok := get(th)
					if !ok {
						if record > 0 {
							t.Fail("an error at threshold %d, although a pass has %d characters", th, record)
						}
						t.Outcome("error")
						break
					}
					if n < th {
						// no pass reaches the threshold: the longest one is expected
						if n != record {
							t.Fail("no pass reaches %d characters: got one of %d, the longest has %d\n%s", th, n, record, short(h))
						}
						break
					}
					steps++
					if h2, n2, ok2 := get(n); n > th && (!ok2 || h2 != h || n2 != n) {
						t.Fail("the same pass is expected at thresholds %d and %d: %d vs %d characters\n%s\n%s", th, n, n, n2, short(h), short(h2))
						break
					}
					record = n
					th = n + 1
					if steps > 8 {
						t.Fail("more than four passes")
						break
					}
				}
				h1, n1, ok1 := get(1 << 40)
				if ok1 != (record > 0) || n1 != record {
					t.Fail("with an unreachable threshold the longest pass (%d) is expected, got %d: %s", record, n1, short(h1))
				}
				t.State(src, fmt.Sprint(steps))
				t.Outcome(fmt.Sprint(steps, record))
			}
			frames := []string{"X", "<div>X</div>", "<div id=\"x\"><div>X</div></div>", "<article>X</article><div class=\"sidebar\"><p>" + prose("side", 150) + "</p></div>"}
			fs = append(fs, Family{Name: "threshold-sweep", N: seqCount(nb, 1, l) * uint64(len(frames)), Run: func(t *T, i uint64) {
				d := &dec{i}
				fr := pick(d, frames)
				var b strings.Builder
				for j, k := range seqAt(d.i, nb, 1, l) {
					b.WriteString(c08Render(c08Blocks[k], j))
				}
				src := page("<title>tit0 tit1 tit2</title>", strings.Replace(fr, "X", b.String(), 1))
				sweep(t, src)
			}})
			// the same with long texts
			fs = append(fs, Family{Name: "long-sweep", N: seqCount(nb, 1, 2) * uint64(len(frames)) * 2, Run: func(t *T, i uint64) {
				d := &dec{i}
				fr, m := pick(d, frames), []int{5, 16}[d.n(2)]
				var b strings.Builder
				for j, k := range seqAt(d.i, nb, 1, 2) {
					tag := tagN(j)
					b.WriteString(strings.NewReplacer("PROSE2", prose(tag+"s", 90*m), "PROSE", prose(tag+"p", 130*m), "Q", tag).Replace(c08Blocks[k]))
				}
				sweep(t, page("<title>tit0 tit1 tit2</title>", strings.Replace(fr, "X", b.String(), 1)))
			}})
			// which pass supplies the content is decided by the reference
			mb := append([]string{"<div role=\"dialog\" aria-modal=\"true\"><p>PROSE</p></div>", "<section aria-modal=\"true\" role=\"dialog\"><p>PROSE</p></section>", "<div role=\"menu\"><p>PROSE</p></div>", "<div><ul><li>Q0</li><li>PROSE</li></ul></div>", "<div class=\"widget\"><p>Q0</p><p>Q1</p></div>", "<footer class=\"x\"><p>PROSE</p></footer>", "<div><h3 class=\"banner\">Q0</h3><p>PROSE</p></div>"}, c08Blocks...)
			scales := []int{1, 8}
			fs = append(fs, Family{Name: "model-sweep", N: seqCount(len(mb), 1, 2) * size(len(frames), len(scales)), Run: func(t *T, i uint64) {
				d := &dec{i}
				fr, m := pick(d, frames), pick(d, scales)
				var b strings.Builder
				for j, k := range seqAt(d.i, len(mb), 1, 2) {
					tag := tagN(j)
					b.WriteString(strings.NewReplacer("PROSE2", prose(tag+"s", 90*m), "PROSE", prose(tag+"p", 130*m), "Q", tag).Replace(mb[k]))
				}
				src := refPage("", strings.ReplaceAll(strings.Replace(fr, "X", b.String(), 1), "href=\"/", "href=\"http://h.example/"))
				th := 1
				for step := 0; step < 9 && !t.Failed(); step++ {
					refJudge(t, src, rOpts{threshold: th}, readability.CharThreshold(th))
					want := rExtract(src, rOpts{threshold: th, top: 5, title: refTitle})
					if want == nil {
						break
					}
					n := textLen(want.text)
					if n < th {
						break
					}
					if n > th {
						refJudge(t, src, rOpts{threshold: n}, readability.CharThreshold(n))
					}
					th = n + 1
				}
			}})
			// what only looked like clutter is kept when nothing else is there
			keep := []string{
				"<div class=\"sidebar\"><p>KEEP</p></div>", "<div class=\"comment\"><p>KEEP</p><p>keepq0 keepq1</p></div>", "<div id=\"footer\"><p>KEEP</p></div>", "<div class=\"related\"><ul><li>keepq0 keepq1</li><li>KEEP</li></ul></div>", "<div class=\"menu\">KEEP</div>", "<section class=\"banner\"><p>KEEP</p></section>", "<div class=\"promo\"><p>KEEP</p><p>keepq0</p></div>", "<ul class=\"social\"><li>KEEP</li></ul>", "<div class=\"sponsor\"><div><p>KEEP</p></div></div>", "<div class=\"widget\"><p>keepq0</p><p>KEEP</p></div>", "<p class=\"header\">KEEP</p>", "<table class=\"tool\"><tr><td>keepq0</td><td>KEEP</td></tr></table>", "<div class=\"disqus\"><blockquote>KEEP</blockquote></div>",
			}
			fr2 := []string{"X", "<div>X</div>", "<article>X</article>", "<div id=\"wrap\"><div>X</div></div>"}
			lens := []int{40, 80, 120, 200, 300}
			fs = append(fs, Family{Name: "clutter-is-all-there-is", N: size(len(keep), len(fr2), len(lens), 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				k, n, fr, kp := d.n(3), pick(d, lens), pick(d, fr2), pick(d, keep)
				body := strings.Replace(fr, "X", strings.Replace(kp, "KEEP", prose("keep", n), 1), 1)
				if k == 1 {
					body += "<p>plain0 plain1.</p>"
				} else if k == 2 {
					body = "<p>plain0 plain1.</p>" + body
				}
				src := page("", body)
				t.Begin("%s", src)
				res := t.MustParse(src, docURI)
				if res == nil {
					return
				}
				t.State(src)
				t.Trace()
				for _, w := range wordsOf(stripTags(body)) {
					if strings.HasPrefix(w, "keep") && !hasWord(stripTags(res.HTMLContent), w) {
						t.Fail("%q is lost, although nothing longer is there: %s", w, short(res.HTMLContent))
						return
					}
				}
				t.Outcome(res.HTMLContent)
			}})
			// the exact boundary, in characters and not in bytes
			ths := []int{60, 100, 250, 500, 777, 1000, 1500, 2000, 2500, 3000, 5000, 8000, 10000, 16384, 20000, 50000, 65536, 100000}
			fs = append(fs, Family{Name: "boundary", N: size(3, 3, len(ths), 7), Run: func(t *T, i uint64) {
				d := &dec{i}
				delta, th, kind, ch := d.n(7)-3, pick(d, ths), d.n(3), []string{"a", "é", "漢"}[d.n(3)]
				n := th + delta
				txt := strings.Repeat(ch, 20) + ", " + strings.Repeat(ch, n-22)
				var body string
				switch kind {
				case 0:
					body = "<div><p>" + txt + "</p></div>"
				case 1:
					body = "<article><p>" + txt[:len(txt)-len(ch)*10] + "</p><p>" + strings.Repeat(ch, 10) + "</p></article>"
				case 2:
					body = "<p>" + txt + "</p>"
				}
				body += "<div class=\"comment\"><p>extra0</p><p>" + prose("extra", th+900) + "</p></div>"
				src := page("", body)
				t.Begin("threshold=%d main text=%d characters %s", th, n, src)
				res := t.MustParse(src, docURI, readability.CharThreshold(th))
				if res == nil {
					return
				}
				t.State(src, fmt.Sprint(th))
				t.Trace()
				retried := strings.Contains(res.TextContent, "extra")
				t.Outcome(fmt.Sprint(retried))
				if retried != (n < th) {
					t.Fail("threshold %d, text of %d characters: the unlikely block is there=%v\n%s", th, n, retried, short(res.HTMLContent))
				}
			}})
			return fs
		}})
}
