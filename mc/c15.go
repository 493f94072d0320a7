package main

import (
	"fmt"
	"strings"
	"sync"

	readability "github.com/giulianopz/go-readability"
)

// C15: the document tree under edits, in lockstep with a model tree.

type mnode struct {
	text  bool
	data  string // tag or decoded text
	attrs []string
	kids  []*mnode
	up    *mnode
	real  *readability.Node
}

var c15Once sync.Once
var c15Root *readability.Node

// c15Fresh returns a fresh element of the library: Parse hands the content to
// the serializer, the elements are made by SetInnerHTML.
func c15Fresh(html string) *readability.Node {
	c15Once.Do(func() {
		r, err := readability.New(page("", "<div>"+paras("x", 3, 200)+"</div>"), docURI, readability.Serializer(func(n *readability.Node) string {
			c15Root = n
			return "x"
		}))
		if err == nil {
			r.Parse()
		}
	})
	c15Root.SetInnerHTML("<div>" + html + "</div>")
	return c15Root.FirstChild()
}

func (m *mnode) html(b *strings.Builder) {
	if m.text {
		b.WriteString(strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;").Replace(m.data))
		return
	}
	b.WriteString("<" + m.data)
	for i := 0; i+1 < len(m.attrs); i += 2 {
		fmt.Fprintf(b, ` %s="%s"`, m.attrs[i], m.attrs[i+1])
	}
	if len(m.kids) == 0 && (m.data == "br" || m.data == "img" || m.data == "hr") {
		b.WriteString("/>")
		return
	}
	b.WriteString(">")
	for _, k := range m.kids {
		k.html(b)
	}
	b.WriteString("</" + m.data + ">")
}

func (m *mnode) inner() string {
	var b strings.Builder
	for _, k := range m.kids {
		k.html(&b)
	}
	return b.String()
}

func (m *mnode) textOf(b *strings.Builder) {
	if m.text {
		b.WriteString(m.data)
	}
	for _, k := range m.kids {
		k.textOf(b)
	}
}

func (m *mnode) index() int {
	for i, k := range m.up.kids {
		if k == m {
			return i
		}
	}
	return -1
}

func (m *mnode) detach() {
	if m.up == nil {
		return
	}
	i := m.index()
	m.up.kids = append(append([]*mnode{}, m.up.kids[:i]...), m.up.kids[i+1:]...)
	m.up = nil
}

func (m *mnode) within(a *mnode) bool {
	for x := m; x != nil; x = x.up {
		if x == a {
			return true
		}
	}
	return false
}

// c15Bind makes the model tree of well-formed markup and binds it to the real
// one, checking the shape on the way.
func c15Bind(m *mnode, n *readability.Node, pool *[]*mnode) error {
	m.real = n
	if len(n.ChildNodes) != len(m.kids) {
		return fmt.Errorf("%d child nodes, want %d in %q", len(n.ChildNodes), len(m.kids), m.inner())
	}
	*pool = append(*pool, m)
	for i, k := range m.kids {
		k.up = m
		if err := c15Bind(k, n.ChildNodes[i], pool); err != nil {
			return err
		}
	}
	return nil
}

// c15Check compares every link of every node with the model.
func c15Check(pool []*mnode) error {
	for i, m := range pool {
		n := m.real
		name := fmt.Sprintf("node %d (%s)", i, m.data)
		var up *readability.Node
		if m.up != nil {
			up = m.up.real
		}
		if n.ParentNode != up && !(m.up == nil && i == 0) {
			return fmt.Errorf("%s: wrong parent", name)
		}
		if m.text {
			if n.NodeType != 3 {
				return fmt.Errorf("%s: not a text node", name)
			}
		} else if n.NodeType != 1 || n.LocalName != m.data || n.TagName != strings.ToUpper(m.data) {
			return fmt.Errorf("%s: it is a <%s>/%s", name, n.LocalName, n.TagName)
		}
		if len(n.ChildNodes) != len(m.kids) {
			return fmt.Errorf("%s: %d child nodes, want %d", name, len(n.ChildNodes), len(m.kids))
		}
		var els []*readability.Node
		for j, k := range m.kids {
			if n.ChildNodes[j] != k.real {
				return fmt.Errorf("%s: child node %d is another one", name, j)
			}
			if !k.text {
				els = append(els, k.real)
			}
		}
		if len(n.Children) != len(els) {
			return fmt.Errorf("%s: %d element children, want %d", name, len(n.Children), len(els))
		}
		for j, e := range els {
			if n.Children[j] != e {
				return fmt.Errorf("%s: element child %d is another one", name, j)
			}
		}
		var fc, lc, fe *readability.Node
		if len(m.kids) > 0 {
			fc, lc = m.kids[0].real, m.kids[len(m.kids)-1].real
		}
		if len(els) > 0 {
			fe = els[0]
		}
		if n.FirstChild() != fc || n.LastChild() != lc || n.FirstElementChild() != fe {
			return fmt.Errorf("%s: wrong first or last child", name)
		}
		if i == 0 {
			continue
		}
		var prev, next, pe, ne *readability.Node
		if m.up != nil {
			k := m.index()
			s := m.up.kids
			if k > 0 {
				prev = s[k-1].real
			}
			if k+1 < len(s) {
				next = s[k+1].real
			}
			for j := k - 1; j >= 0 && pe == nil; j-- {
				if !s[j].text {
					pe = s[j].real
				}
			}
			for j := k + 1; j < len(s) && ne == nil; j++ {
				if !s[j].text {
					ne = s[j].real
				}
			}
		}
		if n.PreviousSibling != prev || n.NextSibling != next {
			return fmt.Errorf("%s: wrong previous or next sibling", name)
		}
		if !m.text && (n.PreviousElementSibling != pe || n.NextElementSibling != ne) {
			return fmt.Errorf("%s: wrong previous or next element sibling", name)
		}
	}
	root := pool[0]
	if got, want := root.real.GetInnerHTML(), root.inner(); got != want {
		return fmt.Errorf("serialized as %q, want %q", got, want)
	}
	var b strings.Builder
	root.textOf(&b)
	if got := root.real.GetTextContent(); got != b.String() {
		return fmt.Errorf("text %q, want %q", got, b.String())
	}
	return nil
}

func mE(tag string, kids ...*mnode) *mnode { return &mnode{data: tag, kids: kids} }
func mT(s string) *mnode                   { return &mnode{text: true, data: s} }

// shapes: the root is a div; at most 6 nodes are addressed by the operations
var c15Shapes = []func() *mnode{
	func() *mnode { return mE("div", mE("p"), mT("t"), mE("b"), mE("i"), mT("u")) },
	func() *mnode { return mE("div", mE("p", mT("t"), mE("b")), mE("i", mT("u"))) },
	func() *mnode { return mE("div", mT("t"), mE("p", mE("b", mT("u"))), mT("v")) },
	func() *mnode { return mE("div", mT("t"), mT2("b", "u"), mT("v"), mE("i")) },
	func() *mnode { return mE("div", mE("p"), mE("b"), mE("i"), mE("a"), mE("u")) },
	func() *mnode { return mE("div", mE("p", mE("b", mE("i"))), mT("t"), mE("br")) },
	func() *mnode { return mE("div", mT("t")) },
	func() *mnode { return mE("div") },
}

func mT2(tag, s string) *mnode { return mE(tag, mT(s)) }

type c15Op struct {
	kind, a, b int
}

const c15N = 6

var c15Frags = []struct {
	html string
	mk   func() []*mnode
}{
	{"", func() []*mnode { return nil }},
	{"x<q>y</q>", func() []*mnode { return []*mnode{mT("x"), mE("q", mT("y"))} }},
	{"<q></q><s></s>", func() []*mnode { return []*mnode{mE("q"), mE("s")} }},
}

var c15Ops = func() []c15Op {
	var out []c15Op
	for a := 0; a < c15N; a++ {
		for b := 1; b < c15N; b++ {
			out = append(out, c15Op{0, a, b}) // append b to a
		}
	}
	for b := 1; b < c15N; b++ {
		out = append(out, c15Op{1, 0, b}) // remove b from its parent
	}
	for a := 1; a < c15N; a++ {
		for b := 1; b < c15N; b++ {
			out = append(out, c15Op{2, a, b}) // replace b with a
		}
	}
	for a := 0; a < c15N; a++ {
		for f := range c15Frags {
			out = append(out, c15Op{3, a, f})
		}
		out = append(out, c15Op{4, a, 0}) // set text
	}
	for a := 0; a < c15N; a++ {
		out = append(out, c15Op{5, a, 0}) // remove from a what is not its child
	}
	return out
}()

// c15Apply applies an operation to the model and to the real tree; false: it
// does not apply here.
func c15Apply(op c15Op, pool *[]*mnode) (bool, error) {
	p := *pool
	if op.a >= len(p) || (op.kind != 3 && op.kind != 4 && op.b >= len(p)) {
		return false, nil
	}
	a := p[op.a]
	switch op.kind {
	case 0:
		b := p[op.b]
		if a.text || a.within(b) {
			return false, nil
		}
		a.real.AppendChild(b.real)
		b.detach()
		a.kids = append(a.kids, b)
		b.up = a
	case 1:
		b := p[op.b]
		if b.up == nil {
			return false, nil
		}
		got, err := b.up.real.RemoveChild(b.real)
		if err != nil || got != b.real {
			return true, fmt.Errorf("RemoveChild of a child: %v", err)
		}
		b.detach()
	case 2: // a takes the place of b
		b := p[op.b]
		if b.up == nil || b.up.within(a) {
			return false, nil
		}
		par := b.up
		got := par.real.ReplaceChild(a.real, b.real)
		if got != b.real {
			return true, fmt.Errorf("ReplaceChild does not return the replaced node")
		}
		if a == b {
			return true, nil
		}
		a.detach()
		i := b.index()
		par.kids = append([]*mnode{}, par.kids...)
		par.kids[i] = a
		a.up, b.up = par, nil
	case 3:
		if a.text {
			return false, nil
		}
		f := c15Frags[op.b]
		a.real.SetInnerHTML(f.html)
		for _, k := range a.kids {
			k.up = nil
		}
		a.kids = f.mk()
		if len(a.real.ChildNodes) != len(a.kids) {
			return true, fmt.Errorf("SetInnerHTML(%q) makes %d nodes", f.html, len(a.real.ChildNodes))
		}
		for i, k := range a.kids {
			k.up = a
			if err := c15Bind(k, a.real.ChildNodes[i], pool); err != nil {
				return true, err
			}
		}
	case 4:
		a.real.SetTextContent("n<w")
		if a.text {
			a.data = "n<w"
			break
		}
		for _, k := range a.kids {
			k.up = nil
		}
		t := mT("n<w")
		t.up = a
		a.kids = []*mnode{t}
		if len(a.real.ChildNodes) != 1 {
			return true, fmt.Errorf("SetTextContent makes %d nodes", len(a.real.ChildNodes))
		}
		t.real = a.real.ChildNodes[0]
		*pool = append(*pool, t)
	case 5:
		for _, b := range p[1:] {
			if b.up != a {
				if _, err := a.real.RemoveChild(b.real); err == nil {
					return true, fmt.Errorf("RemoveChild of a node which is no child succeeds")
				}
			}
		}
	}
	return true, nil
}

func c15Key(pool []*mnode) string {
	var b strings.Builder
	for i, m := range pool {
		u := -1
		if m.up != nil {
			for j, x := range pool {
				if x == m.up {
					u = j
				}
			}
			fmt.Fprintf(&b, "%d:%d.%d ", i, u, m.index())
		} else {
			fmt.Fprintf(&b, "%d:- ", i)
		}
	}
	return b.String()
}

func init() {
	register(&Prop{ID: "C15", Level: "model_checking",
		Rule: "all sequences of up to 2 (3 for two shapes; thorough: 3 for all, 4 for one) of the 95 operations on 8 small trees, model and real tree in lockstep, every link of every node (also the detached ones) compared after each step; all well-formed markup of up to 6 (7) tokens; all sequences of up to 6 attribute operations; non-trivial: a distinct model state reached",
		Families: func(tier string) []Family {
			var fs []Family
			add := func(name string, shapes []func() *mnode, l int) {
				fs = append(fs, Family{Name: name, N: seqCount(len(c15Ops), 1, l) * uint64(len(shapes)), Run: func(t *T, i uint64) {
					d := &dec{i}
					m := shapes[d.n(len(shapes))]()
					seq := seqAt(d.i, len(c15Ops), 1, l)
					src := m.inner()
					real := c15Fresh(src)
					var pool []*mnode
					if err := c15Bind(m, real, &pool); err != nil {
						t.Fail("%v", err)
						return
					}
					for k, o := range seq {
						op := c15Ops[o]
						if k == 0 {
							t.Desc("%s ops %v", src, seqOps(seq))
						}
						ok, err := c15Apply(op, &pool)
						if !ok {
							if k < len(seq)-1 || k > 0 {
								return // a shorter sequence covers it
							}
							return
						}
						t.Trans++
						if err == nil {
							err = c15Check(pool)
						}
						t.Trace()
						if err != nil {
							t.Fail("%s after %v: %v", src, seqOps(seq[:k+1]), err)
							return
						}
					}
					t.State(name, src, c15Key(pool))
				}})
			}
			if tier == "thorough" {
				add("edits-4", c15Shapes[1:2], 4)
				add("edits-3", c15Shapes, 3)
			} else {
				add("edits-3", c15Shapes[:2], 3)
				add("edits-2", c15Shapes, 2)
			}
			// well-formed markup
			toks := []string{"<div>", "<p>", "<b>", "/", "t", "&amp;", "<br/>", "<img a=\"1\"/>", "<!-- c -->", "<svg:g>", "<a:b:i>", "<UL>", "<li class=\"x\" id=\"y\">"}
			l := 5
			if tier == "thorough" {
				l = 6
			}
			fs = append(fs, Family{Name: "markup", N: seqCount(len(toks), 0, l), Run: func(t *T, i uint64) {
				seq := seqAt(i, len(toks), 0, l)
				var b strings.Builder
				root := mE("div")
				cur := root
				var open []string
				text := func(s string) {
					if k := len(cur.kids); k > 0 && cur.kids[k-1].text {
						cur.kids[k-1].data += s
						return
					}
					cur.kids = append(cur.kids, mT(s))
				}
				afterComment := false
				for _, k := range seq {
					tk := toks[k]
					if afterComment && (tk == "t" || tk == "&amp;") {
						return // whether a comment splits a text is not stated
					}
					afterComment = tk == "<!-- c -->"
					switch {
					case tk == "/":
						if cur == root {
							return
						}
						b.WriteString("</" + open[len(open)-1] + ">")
						open = open[:len(open)-1]
						cur = cur.up
					case tk == "t":
						b.WriteString("t")
						text("t")
					case tk == "&amp;":
						b.WriteString("&amp;")
						text("&")
					case tk == "<br/>":
						b.WriteString(tk)
						cur.kids = append(cur.kids, &mnode{data: "br", up: cur})
					case tk == "<img a=\"1\"/>":
						b.WriteString(tk)
						cur.kids = append(cur.kids, &mnode{data: "img", up: cur, attrs: []string{"a", "1"}})
					case tk == "<!-- c -->":
						b.WriteString(tk)
					default:
						b.WriteString(tk)
						name, rest, _ := strings.Cut(strings.Trim(tk, "<>"), " ")
						e := &mnode{up: cur}
						if rest != "" {
							e.attrs = []string{"class", "x", "id", "y"}
						}
						open = append(open, name)
						if j := strings.LastIndexByte(name, ':'); j >= 0 {
							name = name[j+1:]
						}
						e.data = strings.ToLower(name)
						cur.kids = append(cur.kids, e)
						cur = e
					}
				}
				for k := len(open) - 1; k >= 0; k-- {
					b.WriteString("</" + open[k] + ">")
				}
				t.Desc("%s", b.String())
				real := c15Fresh(b.String())
				t.Trans++
				var pool []*mnode
				err := c15Bind(root, real, &pool)
				if err == nil {
					err = c15Check(pool)
				}
				t.Trace()
				if err != nil {
					t.Fail("%s: %v", b.String(), err)
					return
				}
				t.State(b.String())
			}})
			// the tree the library itself leaves behind
			nb := len(c06Blocks)
			thr := []int{1, 200, 5000}
			lb := 2
			if tier == "thorough" {
				lb = 3
			}
			fs = append(fs, Family{Name: "after-parse", N: seqCount(nb, 1, lb) * uint64(len(thr)), Run: func(t *T, i uint64) {
				d := &dec{i}
				th := pick(d, thr)
				var b strings.Builder
				for j, k := range seqAt(d.i, nb, 1, lb) {
					b.WriteString(c06Render(c06Blocks[k], j))
				}
				src := page("<title>t</title>", b.String())
				t.Begin("threshold %d %s", th, src)
				res, err := t.Parse(src, docURI, readability.CharThreshold(th), readability.Serializer(func(n *readability.Node) string {
					seen := map[*readability.Node]bool{}
					if e := c15Sound(n, seen); e != nil {
						t.Fail("the content has an unsound tree: %v", e)
						return ""
					}
					return n.GetInnerHTML()
				}))
				if err == nil && !t.Failed() {
					t.State(src)
					t.Outcome(res.HTMLContent)
				}
				t.Trace()
			}})
			// attributes
			type aop struct {
				del       bool
				name, val string
			}
			aops := []aop{{false, "class", "1"}, {false, "class", "2"}, {false, "id", "3"}, {false, "x", "4"}, {true, "class", ""}, {true, "id", ""}, {true, "x", ""}, {false, "x", ""}}
			la := 5
			if tier == "thorough" {
				la = 6
			}
			fs = append(fs, Family{Name: "attributes", N: seqCount(len(aops), 1, la) * 2, Run: func(t *T, i uint64) {
				d := &dec{i}
				src := []string{"<p>t</p>", `<p id="0" class="a b">t</p>`}[d.n(2)]
				var model []string
				if strings.Contains(src, "id=") {
					model = []string{"id", "0", "class", "a b"}
				}
				n := c15Fresh(src).FirstChild()
				seq := seqAt(d.i, len(aops), 1, la)
				t.Desc("%s %v", src, seq)
				for _, k := range seq {
					o := aops[k]
					at := -1
					for j := 0; j < len(model); j += 2 {
						if model[j] == o.name {
							at = j
						}
					}
					switch {
					case o.del:
						n.RemoveAttribute(o.name)
						if at >= 0 {
							model = append(append([]string{}, model[:at]...), model[at+2:]...)
						}
					default:
						switch {
						case o.name == "class" && o.val == "2":
							n.SetClassName(o.val)
						case o.name == "id":
							n.SetId(o.val)
						default:
							n.SetAttribute(o.name, o.val)
						}
						if at >= 0 {
							model[at+1] = o.val
						} else {
							model = append(model, o.name, o.val)
						}
					}
					t.Trans++
				}
				has := map[string]string{}
				for j := 0; j < len(model); j += 2 {
					has[model[j]] = model[j+1]
				}
				for _, name := range []string{"class", "id", "x", "y"} {
					v, ok := has[name]
					if n.HasAttribute(name) != ok || n.GetAttribute(name) != v {
						t.Fail("%s %v: attribute %s is %v %q, want %v %q", src, seq, name, n.HasAttribute(name), n.GetAttribute(name), ok, v)
						return
					}
				}
				if n.GetId() != has["id"] || n.GetClassName() != has["class"] || n.GetAttributeLen() != len(model)/2 {
					t.Fail("%s %v: id %q, class %q, %d attributes; want %v", src, seq, n.GetId(), n.GetClassName(), n.GetAttributeLen(), model)
					return
				}
				m := &mnode{data: "p", attrs: model, kids: []*mnode{mT("t")}}
				var b strings.Builder
				m.html(&b)
				if got := n.ParentNode.GetInnerHTML(); got != b.String() {
					t.Fail("%s %v: serialized as %q, want %q", src, seq, got, b.String())
				}
				if id := has["id"]; id != "" && n.ParentNode.GetElementById(id) != n {
					t.Fail("%s %v: not found by its id", src, seq)
				}
				t.State(src, fmt.Sprint(model))
				t.Trace()
			}})
			return fs
		},
		Assume: []string{"operations which would make a node its own ancestor, or replace a node which is no child, are outside of the claim"},
	})
}

// c15Sound checks the links of a tree against each other.
func c15Sound(n *readability.Node, seen map[*readability.Node]bool) error {
	if seen[n] {
		return fmt.Errorf("<%s> is in the tree twice", n.LocalName)
	}
	seen[n] = true
	var prev, prevE *readability.Node
	var els []*readability.Node
	for i, c := range n.ChildNodes {
		if c.ParentNode != n {
			return fmt.Errorf("child %d <%s> of <%s> has another parent", i, c.LocalName, n.LocalName)
		}
		if c.PreviousSibling != prev || prev != nil && prev.NextSibling != c {
			return fmt.Errorf("sibling links of child %d <%s> of <%s>", i, c.LocalName, n.LocalName)
		}
		prev = c
		if c.NodeType == 1 {
			if c.PreviousElementSibling != prevE || prevE != nil && prevE.NextElementSibling != c {
				return fmt.Errorf("element sibling links of child %d <%s> of <%s>", i, c.LocalName, n.LocalName)
			}
			prevE = c
			els = append(els, c)
		}
		if err := c15Sound(c, seen); err != nil {
			return err
		}
	}
	if prev != nil && prev.NextSibling != nil || prevE != nil && prevE.NextElementSibling != nil {
		return fmt.Errorf("the last child of <%s> has a next sibling", n.LocalName)
	}
	if len(els) != len(n.Children) {
		return fmt.Errorf("<%s> has %d element children, listed %d", n.LocalName, len(els), len(n.Children))
	}
	for i := range els {
		if els[i] != n.Children[i] {
			return fmt.Errorf("element child %d of <%s>", i, n.LocalName)
		}
	}
	return nil
}

func seqOps(seq []int) []string {
	var out []string
	for _, k := range seq {
		o := c15Ops[k]
		switch o.kind {
		case 0:
			out = append(out, fmt.Sprintf("append(#%d,#%d)", o.a, o.b))
		case 1:
			out = append(out, fmt.Sprintf("remove(#%d)", o.b))
		case 2:
			out = append(out, fmt.Sprintf("replace(#%d by #%d)", o.b, o.a))
		case 3:
			out = append(out, fmt.Sprintf("html(#%d,%q)", o.a, c15Frags[o.b].html))
		case 4:
			out = append(out, fmt.Sprintf("text(#%d)", o.a))
		default:
			out = append(out, fmt.Sprintf("remove-foreign(#%d)", o.a))
		}
	}
	return out
}
