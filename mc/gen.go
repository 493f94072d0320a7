package main

import (
	"fmt"
	"strings"
	"unicode"

	"golang.org/x/net/html"
)

// dec decodes an index into digits: the last dimension varies fastest.
type dec struct{ i uint64 }

func (d *dec) n(k int) int {
	v := d.i % uint64(k)
	d.i /= uint64(k)
	return int(v)
}
func (d *dec) b() bool { return d.n(2) == 1 }
func pick[X any](d *dec, xs []X) X {
	return xs[d.n(len(xs))]
}
func size(dims ...int) uint64 {
	n := uint64(1)
	for _, d := range dims {
		n *= uint64(d)
	}
	return n
}
func pow(b, e int) uint64 {
	n := uint64(1)
	for i := 0; i < e; i++ {
		n *= uint64(b)
	}
	return n
}

// seqCount is the number of sequences over k symbols of length lo..hi.
func seqCount(k, lo, hi int) uint64 {
	n := uint64(0)
	for l := lo; l <= hi; l++ {
		n += pow(k, l)
	}
	return n
}

// seqAt decodes the i-th sequence, shortest first.
func seqAt(i uint64, k, lo, hi int) []int {
	for l := lo; l <= hi; l++ {
		m := pow(k, l)
		if i < m {
			s := make([]int, l)
			for j := range s {
				s[j] = int(i % uint64(k))
				i /= uint64(k)
			}
			return s
		}
		i -= m
	}
	panic("seqAt: out of range")
}

const docURI = "http://host.example/dir/page.html"

// words returns n distinct words starting with the given tag: tag0 tag1 ...
func words(tag string, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteByte(' ')
		}
		fmt.Fprintf(&b, "%s%d", tag, i)
	}
	return b.String()
}

// prose is a sentence of exactly n characters (at least 12) made of distinct
// words carrying the tag, with a comma about every 40 characters, and ending
// with a full stop.
func prose(tag string, n int) string {
	var b strings.Builder
	i := 0
	lastComma := 0
	for {
		w := fmt.Sprintf("%s%d", tag, i)
		i++
		if b.Len()+len(w)+2 > n {
			break
		}
		if b.Len() > 0 {
			if b.Len()-lastComma > 40 {
				b.WriteByte(',')
				lastComma = b.Len()
			}
			b.WriteByte(' ')
		}
		b.WriteString(w)
	}
	for b.Len() < n-1 {
		b.WriteByte('z')
	}
	b.WriteByte('.')
	return b.String()
}

// paras is k paragraphs of n characters each: tag a, b, c...
func paras(tag string, k, n int) string {
	var b strings.Builder
	for i := 0; i < k; i++ {
		b.WriteString("<p>" + prose(fmt.Sprintf("%s%c", tag, 'a'+i), n) + "</p>")
	}
	return b.String()
}

func page(head, body string) string {
	return "<html><head>" + head + "</head><body>" + body + "</body></html>"
}

// wordsOf splits a text into its alphanumeric words.
func wordsOf(s string) []string {
	return strings.FieldsFunc(s, func(r rune) bool { return !unicode.IsLetter(r) && !unicode.IsDigit(r) })
}

func hasWord(s, w string) bool {
	for _, x := range wordsOf(s) {
		if x == w {
			return true
		}
	}
	return false
}

func squash(s string) string { return strings.Join(strings.Fields(s), " ") }

// parseOut parses what the library returned with a conforming HTML parser.
func parseOut(s string) *html.Node {
	ctx := &html.Node{Type: html.ElementNode, Data: "body", DataAtom: 0}
	ctx.DataAtom = bodyAtom
	nodes, err := html.ParseFragment(strings.NewReader(s), ctx)
	root := &html.Node{Type: html.ElementNode, Data: "root"}
	if err != nil {
		return root
	}
	for _, n := range nodes {
		root.AppendChild(n)
	}
	return root
}

func walk(n *html.Node, f func(*html.Node)) {
	f(n)
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		walk(c, f)
	}
}

func elems(n *html.Node, tag string) []*html.Node {
	var out []*html.Node
	walk(n, func(x *html.Node) {
		if x.Type == html.ElementNode && (tag == "*" || x.Data == tag) && x.Data != "root" {
			out = append(out, x)
		}
	})
	return out
}

func textOf(n *html.Node) string {
	var b strings.Builder
	walk(n, func(x *html.Node) {
		if x.Type == html.TextNode {
			b.WriteString(x.Data)
		}
	})
	return b.String()
}

func attrOf(n *html.Node, name string) (string, bool) {
	for _, a := range n.Attr {
		if a.Key == name {
			return a.Val, true
		}
	}
	return "", false
}

func byAttr(root *html.Node, name, val string) *html.Node {
	var hit *html.Node
	walk(root, func(x *html.Node) {
		if v, ok := attrOf(x, name); ok && v == val && hit == nil {
			hit = x
		}
	})
	return hit
}

func ancestor(n *html.Node, tag string) *html.Node {
	for p := n.Parent; p != nil; p = p.Parent {
		if p.Data == tag {
			return p
		}
	}
	return nil
}

func short(s string) string {
	if len(s) > 1500 {
		return s[:700] + " ... " + s[len(s)-700:]
	}
	return s
}
