package main

import (
	"fmt"
	"strings"
	"unicode/utf8"
)

// C12: the title derived from the title element.

const c12Seps = "|-\\/>»"

func isSep(r rune) bool { return strings.ContainsRune(c12Seps, r) }

// pieces counts the pieces between runs of blanks: a leading or trailing blank
// makes an empty one.
func pieces(s string) int {
	n, in := 1, false
	for _, r := range s {
		if r == ' ' || r == '\t' || r == '\n' {
			if !in {
				n++
			}
			in = true
		} else {
			in = false
		}
	}
	return n
}

// spaced tells whether one of the characters stands between blanks.
func spaced(s, chars string) bool {
	rs := []rune(s)
	for i := 1; i+1 < len(rs); i++ {
		if rs[i-1] == ' ' && rs[i+1] == ' ' && strings.ContainsRune(chars, rs[i]) {
			return true
		}
	}
	return false
}

func collapse(s string) string {
	var b strings.Builder
	run := 0
	var first rune
	flush := func() {
		if run == 1 {
			b.WriteRune(first)
		} else if run > 1 {
			b.WriteByte(' ')
		}
		run = 0
	}
	for _, r := range s {
		if r == ' ' || r == '\t' || r == '\n' {
			if run == 0 {
				first = r
			}
			run++
			continue
		}
		flush()
		b.WriteRune(r)
	}
	flush()
	return b.String()
}

// titleModel is the reference: title is the trimmed text of the title element,
// h1 and h2 the trimmed texts of the headings.
func titleModel(title string, h1, h2 []string) string {
	cur := title
	hier := false
	switch {
	case spaced(title, c12Seps):
		hier = spaced(title, "\\/>»")
		// before the last separator which is followed by a blank
		rs := []rune(title)
		for i := len(rs) - 2; i >= 0; i-- {
			if isSep(rs[i]) && rs[i+1] == ' ' {
				cur = string(rs[:i])
				break
			}
		}
		if pieces(cur) < 3 {
			// after the first separator
			for i, r := range rs {
				if isSep(r) {
					cur = string(rs[i+1:])
					break
				}
			}
		}
	case strings.Contains(title, ": "):
		whole := false
		for _, h := range append(append([]string{}, h1...), h2...) {
			whole = whole || strings.TrimSpace(h) == title
		}
		first, last := strings.Index(title, ":"), strings.LastIndex(title, ":")
		if !whole {
			cur = title[last+1:]
		}
		if pieces(cur) < 3 {
			cur = title[first+1:]
		} else if pieces(title[:first]) > 5 {
			cur = title
		}
	case utf8.RuneCountInString(title) > 150 || utf8.RuneCountInString(title) < 15:
		if len(h1) == 1 {
			cur = collapse(strings.TrimSpace(h1[0]))
		}
	}
	cur = collapse(strings.TrimSpace(cur))
	n := pieces(cur)
	if n <= 4 {
		bare := strings.Map(func(r rune) rune {
			if isSep(r) {
				return -1
			}
			return r
		}, title)
		if !hier || n != pieces(bare)-1 {
			return title
		}
	}
	return cur
}

func c12Check(t *T, rawTitle, title string, h1, h2 []string, extra string) {
	var b strings.Builder
	for _, h := range h1 {
		b.WriteString("<h1>" + h + "</h1>")
	}
	for _, h := range h2 {
		b.WriteString("<h2>" + h + "</h2>")
	}
	src := page(rawTitle, "<div>"+b.String()+extra+"<p>"+prose("fst", 300)+"</p><p>"+prose("snd", 300)+"</p></div>")
	t.Begin("%s", src)
	res := t.MustParse(src, docURI)
	if res == nil {
		return
	}
	want := titleModel(title, h1, h2)
	t.Trace()
	if res.Title != want {
		t.Fail("title %q (h1 %q, h2 %q): got %q, want %q", title, h1, h2, res.Title, want)
		return
	}
	t.State(src)
	t.Outcome(want)
}

func init() {
	register(&Prop{ID: "C12", Level: "model_checking",
		Rule: "every title of up to 6 (quick) or 7 (thorough) symbols over words, separators, colons and hyphens x sets of headings, and every length around the limits, against the reference model; non-trivial: a distinct page whose title was compared",
		Families: func(tier string) []Family {
			var fs []Family
			sym := []string{"W", " | ", " / ", ": ", " - ", "-"}
			l := 6
			if tier == "thorough" {
				l = 7
			}
			build := func(seq []int, sym []string) string {
				var b strings.Builder
				prev := false
				for j, k := range seq {
					if sym[k] == "W" {
						if prev {
							b.WriteByte(' ')
						}
						fmt.Fprintf(&b, "Wo%crd", 'a'+j)
						prev = true
					} else {
						b.WriteString(sym[k])
						prev = false
					}
				}
				return b.String()
			}
			fs = append(fs, Family{Name: "symbols", N: seqCount(len(sym), 1, l) * 2, Run: func(t *T, i uint64) {
				d := &dec{i}
				hs := d.n(2)
				raw := build(seqAt(d.i, len(sym), 1, l), sym)
				title := strings.TrimSpace(raw)
				var h1 []string
				if hs == 1 {
					h1 = []string{"One heading of five words"}
				}
				c12Check(t, "<title>"+raw+"</title>", title, h1, nil, "")
			}})
			sym2 := []string{"W", " » ", " &gt; ", " \\ ", ":", "  ", " – ", "W W W", "|", "&amp;"}
			fs = append(fs, Family{Name: "other-symbols", N: seqCount(len(sym2), 1, 5) * 2, Quick: seqCount(len(sym2), 1, 4) * 2, Run: func(t *T, i uint64) {
				d := &dec{i}
				hs := d.n(2)
				raw := build(seqAt(d.i, len(sym2), 1, 5), sym2)
				title := strings.TrimSpace(refDecode(raw))
				var h1 []string
				if hs == 1 {
					h1 = []string{"One heading of five words"}
				}
				c12Check(t, "<title>"+raw+"</title>", title, h1, nil, "")
			}})
			// word counts: a words, separator, b words, separator, c words x headings
			seps := []string{" | ", " - ", " / ", " » ", " > ", " \\ ", ": ", " :: ", ":", " — ", "- ", " -"}
			wrds := func(tag string, n int) string { return words(tag, n) }
			heads := func(k int, title string) (h1, h2 []string) {
				switch k {
				case 1:
					h1 = []string{title}
				case 2:
					h2 = []string{title}
				case 3:
					h1 = []string{"Some other heading with words"}
				case 4:
					h1 = []string{"Short one"}
				case 5:
					h1 = []string{"First of the two headings", "Second of the two headings"}
				case 6:
					h1, h2 = []string{"Unrelated heading of the page"}, []string{" " + title + " "}
				case 7:
					h1 = []string{"  Some   spaced  out heading here "}
				case 8: // nearly the title
					h2 = []string{strings.ToUpper(title)}
				case 9:
					h1, h2 = []string{title + "s", title + "."}, []string{"x" + title, title + " x"}
				case 10:
					h2 = []string{strings.ReplaceAll(title, " ", "  "), strings.ReplaceAll(title, " ", ""), strings.ReplaceAll(title, ":", "")}
				}
				return
			}
			fs = append(fs, Family{Name: "word-counts", N: size(8, 8, len(seps), 11), Run: func(t *T, i uint64) {
				d := &dec{i}
				a, b, s, h := d.n(8), d.n(8), pick(d, seps), d.n(11)
				raw := wrds("aa", a) + s + wrds("bb", b)
				title := strings.TrimSpace(raw)
				h1, h2 := heads(h, title)
				c12Check(t, "<title>"+raw+"</title>", title, h1, h2, "")
			}})
			fs = append(fs, Family{Name: "three-parts", N: size(5, 5, 5, len(seps), len(seps), 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				a, b, c, s1, s2, h := 1+d.n(5), 1+d.n(5), 1+d.n(5), pick(d, seps), pick(d, seps), d.n(3)
				title := strings.TrimSpace(wrds("aa", a) + s1 + wrds("bb", b) + s2 + wrds("cc", c))
				h1, h2 := heads(h, title)
				c12Check(t, "<title>"+title+"</title>", title, h1, h2, "")
			}})
			// lengths around 15 and 150 characters x headings
			fs = append(fs, Family{Name: "lengths", N: size(165, 8, 4), Run: func(t *T, i uint64) {
				d := &dec{i}
				n, h, kind := d.n(165), d.n(8), d.n(4)
				var b strings.Builder
				for k := 0; k < n; k++ {
					switch {
					case kind == 0 && k%5 == 4 && k < n-1:
						b.WriteByte(' ')
					case kind == 1:
						b.WriteString("é")
					case kind == 2 && k%3 == 2 && k < n-1:
						b.WriteByte(' ')
					case kind == 3 && k%4 == 3 && k < n-1:
						b.WriteString(" ")
					case kind == 3:
						b.WriteString("漢")
					default:
						b.WriteByte(byte('a' + k%26))
					}
				}
				h1, h2 := heads(h, b.String())
				c12Check(t, "<title>"+b.String()+"</title>", b.String(), h1, h2, "")
			}})
			// where the title comes from: none, blank, several, markup, svg
			srcs := []struct{ raw, title string }{
				{"", ""}, {"<title></title>", ""}, {"<title>  </title>", ""}, {"<title>First title of this very page</title><title>Second title of this very page</title>", "First title of this very page"}, {"<title></title><title>Second title of this very page</title>", "Second title of this very page"}, {"<title>\n  Padded title of this very page\n</title>", "Padded title of this very page"}, {"<title>A &lt;b&gt; title of this page</title>", "A <b> title of this page"}, {"<TITLE>Upper case title element with words</TITLE>", "Upper case title element with words"}, {"<title>x</title>", "x"}, {"<svg><title>Icon of the svg image here</title></svg><title>Second title of this very page</title>", "Icon of the svg image here"},
			}
			fs = append(fs, Family{Name: "sources", N: size(len(srcs), 8, 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				s, h, x := pick(d, srcs), d.n(8), d.n(3)
				if x == 2 && s.title == "" {
					return // whether the title of an image stands in is not stated
				}
				h1, h2 := heads(h, s.title)
				c12Check(t, s.raw, s.title, h1, h2, []string{"", "<h3>" + s.title + " x</h3>", "<p><svg><title>icon in the body of the page</title></svg></p>"}[x])
			}})
			// only headings of the first two levels speak for the title
			oth := []string{"h3", "h4", "h5", "h6", "header", "strong", "p", "h7", "figcaption"}
			fs = append(fs, Family{Name: "other-headings", N: size(8, 8, len(seps), len(oth), 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				a, b, s, tag, h := d.n(8), d.n(8), pick(d, seps), pick(d, oth), d.n(3)
				title := strings.TrimSpace(wrds("aa", a) + s + wrds("bb", b))
				h1, h2 := heads(h, title)
				c12Check(t, "<title>"+title+"</title>", title, h1, h2, "<"+tag+">"+title+"</"+tag+">")
			}})
			// titles which are too short or too long, and one heading of another level
			fs = append(fs, Family{Name: "other-headings-length", N: size(165, len(oth), 2), Run: func(t *T, i uint64) {
				d := &dec{i}
				n, tag, one := d.n(165), pick(d, oth), d.b()
				title := strings.Repeat("k", n)
				var h1 []string
				if one {
					h1 = []string{"The only heading of the page here"}
				}
				c12Check(t, "<title>"+title+"</title>", title, h1, nil, "<"+tag+">Another heading of the page here</"+tag+">")
			}})
			return fs
		},
	})
}
