package main

import (
	"reflect"
	"strings"

	docx "github.com/fumiama/go-docx"
)

func init() {
	register(&Prop{ID: "C11", Quick: 36000, Deep: 400000, Run: runC11,
		Rule: "random paragraphs (parsed and built, with many runs of equal and different properties, texts, tabs, breaks, drawings, links, field codes) merged under every rule; the merged paragraph is compared with an independent model of contiguous groups, and the source with its snapshot; non-trivial: at least two runs were merged",
		Need: map[string]int{"merges": 12000, "runs merged away": 8000, "texts joined": 3000, "links kept": 500, "drawings kept": 500}})
}

// propTag maps the field names of run properties to elements.
var propTag = map[string]string{"Fonts": "w:rFonts", "Bold": "w:b", "ICs": "w:iCs", "Italic": "w:i", "Highlight": "w:highlight", "Color": "w:color", "Size": "w:sz", "SizeCs": "w:szCs", "Spacing": "w:spacing", "RunStyle": "w:rStyle", "Style": "w:pStyle", "Shade": "w:shd", "Kern": "w:kern", "Underline": "w:u", "VertAlign": "w:vertAlign", "Strike": "w:strike"}

func canonOf(n *Node) string {
	if n == nil {
		return "-"
	}
	return n.canon()
}

// mergeRule is a rule and its independent model over the run elements.
type mergeRule struct {
	name string
	rule docx.RunMergeRule
	mod  func(a, b *Node) bool
}

func (c *Ctx) mergeRule() mergeRule {
	switch c.Intn(6) {
	case 0:
		return mergeRule{"all", docx.MergeAllRuns, func(a, b *Node) bool { return true }}
	case 1, 2:
		return mergeRule{"same", docx.MergeSamePropRuns, func(a, b *Node) bool {
			return canonOf(a.first("w:rPr")) == canonOf(b.first("w:rPr"))
		}}
	case 3, 4:
		var ns []string
		for n := range propTag {
			ns = append(ns, n)
		}
		sortStrings(ns)
		c.Shuffle(len(ns), func(i, j int) { ns[i], ns[j] = ns[j], ns[i] })
		ns = ns[:c.Intn(5)]
		if c.Intn(10) == 0 {
			ns = nil
		}
		return mergeRule{"same " + strings.Join(ns, ","), docx.MergeSamePropRunsOf(ns...), func(a, b *Node) bool {
			x, y := a.first("w:rPr"), b.first("w:rPr")
			if (x == nil) != (y == nil) {
				return false
			}
			if x == nil {
				return true
			}
			for _, n := range ns {
				if canonOf(x.first(propTag[n])) != canonOf(y.first(propTag[n])) {
					return false
				}
			}
			return true
		}}
	}
	if c.Intn(2) == 0 {
		return mergeRule{"none", func(_, _ *docx.Run) bool { return false }, func(a, b *Node) bool { return false }}
	}
	// a rule of the user's own
	bold := func(r *docx.Run) bool { return r.RunProperties != nil && r.RunProperties.Bold != nil }
	nb := func(n *Node) bool { return n.first("w:rPr") != nil && n.first("w:rPr").first("w:b") != nil }
	switch c.Intn(4) {
	case 0: // rules that are not symmetric
		return mergeRule{"own, from bold", func(a, b *docx.Run) bool { return bold(a) && !bold(b) }, func(a, b *Node) bool { return nb(a) && !nb(b) }}
	case 1:
		return mergeRule{"own, into plain", func(a, b *docx.Run) bool { return a.RunProperties == nil && b.RunProperties != nil }, func(a, b *Node) bool { return a.first("w:rPr") == nil && b.first("w:rPr") != nil }}
	case 2:
		return mergeRule{"own, the second", func(_, b *docx.Run) bool { return bold(b) }, func(_, b *Node) bool { return nb(b) }}
	}
	return mergeRule{"own", func(a, b *docx.Run) bool { return bold(a) == bold(b) }, func(a, b *Node) bool { return nb(a) == nb(b) }}
}

// mergeModel merges the runs of a paragraph element.
func mergeModel(p *Node, can func(a, b *Node) bool) (m *Node, gone, joined int) {
	m = &Node{Tag: p.Tag, Attrs: p.Attrs}
	join := func(r *Node) {
		var ks []*Node
		for _, k := range r.Kids {
			if k.Tag == "w:t" {
				s := k.text()
				if s == "" {
					continue
				}
				if len(ks) > 0 && ks[len(ks)-1].Tag == "w:t" {
					l := ks[len(ks)-1]
					ks[len(ks)-1] = el("w:t", tx(l.text()+s))
					joined++
					continue
				}
				k = el("w:t", tx(s))
			}
			ks = append(ks, k)
		}
		r.Kids = ks
	}
	var prev *Node
	for _, k := range p.Kids {
		if k.Tag != "w:r" {
			m.Kids = append(m.Kids, k.clone())
			if k.Tag != "w:pPr" {
				prev = nil
			}
			continue
		}
		if prev != nil && prev.first("w:instrText") == nil && k.first("w:instrText") == nil && can(prev, k) {
			for _, x := range k.Kids {
				if x.Tag != "w:rPr" {
					prev.Kids = append(prev.Kids, x.clone())
				}
			}
			gone++
			continue
		}
		prev = k.clone()
		m.Kids = append(m.Kids, prev)
	}
	for _, k := range m.Kids {
		if k.Tag == "w:r" {
			join(k)
		}
	}
	return
}

// noSpaceAttr forgets xml:space on texts of runs.
func noSpaceAttr(n *Node) *Node {
	m := n.clone()
	m.walk(func(x *Node) {
		if x.Tag == "w:t" {
			x.del("xml:space")
		}
	})
	return m
}

func runC11(c *Ctx) {
	// a document of one paragraph with few different run properties
	var d *docx.Docx
	var pn *Node
	var rf Refs
	if c.Chance(0.7) {
		w := newWorld(c.Rand, WorldOpt{Items: 0, Images: c.Intn(2), Links: 1 + c.Intn(2), Setup: func(g *Gen) { g.NoDeep = true }})
		g := &Gen{Rand: c.Rand, NoDeep: true, SimpleTxt: c.Chance(0.3)}
		for _, x := range w.Rels {
			if _, ok := w.Images[x.ID]; ok {
				g.Embeds = append(g.Embeds, x.ID)
			}
			if _, ok := w.Links[x.ID]; ok {
				g.Links = append(g.Links, x.ID)
			}
		}
		var pool []*Node
		for k := 1 + c.Intn(3); k > 0; k-- {
			pool = append(pool, g.elem("w:rPr"))
		}
		if len(pool) > 1 && c.Chance(0.5) { // nearly the same
			pool[1] = pool[0].clone()
			if ks := pool[1].Kids; len(ks) > 0 {
				i := c.Intn(len(ks))
				if c.Chance(0.5) {
					pool[1].Kids = append(ks[:i:i], ks[i+1:]...)
				} else {
					for t := 0; t < 20; t++ {
						q := g.elem("w:rPr")
						if z := q.first(ks[i].Tag); z != nil && z.canon() != ks[i].canon() {
							pool[1].Kids[i] = z
							break
						}
					}
				}
			}
		}
		pn = el("w:p")
		if c.Chance(0.4) {
			pn.add(g.elem("w:pPr"))
		}
		for k := c.Intn(9); k > 0; k-- {
			switch c.Intn(12) {
			case 0:
				pn.add(g.hyperlink())
				continue
			case 1:
				if c.Chance(0.3) {
					pn.add(g.elem("w:rPr"))
					continue
				}
			}
			r := g.run()
			filterKids(r, func(k *Node) bool { return k.Tag != "w:rPr" })
			if c.Chance(0.85) {
				r.Kids = append([]*Node{pool[c.Intn(len(pool))].clone()}, r.Kids...)
			}
			if c.Chance(0.1) { // an empty text
				r.add(el("w:t"))
			}
			if c.Chance(0.5) { // texts only
				filterKids(r, func(k *Node) bool { return k.Tag != "w:drawing" })
			}
			pn.add(r)
		}
		w.Doc = el("w:document", el("w:body", pn))
		w.Pkg.replace(docPart, []byte(plainStyle().render(w.Doc)))
		d = c.mustOpen(w.bytes(c.Rand), "generated package")
		if d == nil {
			return
		}
		rf = w.refs()
	} else {
		b := c.newBuilder()
		p, n := b.addPara()
		for k := 1 + c.Intn(3); k > 0; k-- {
			b.fill(p, n)
		}
		d, pn, rf = b.d, n, b.mod.Refs
	}
	p, ok := d.Document.Body.Items[0].(*docx.Paragraph)
	if !ok {
		c.Violate("items", "the paragraph is a %T", d.Document.Body.Items[0])
		return
	}
	if c.Chance(0.15) { // the same object twice
		c.doubled(p, pn)
	}
	snap, text := dump(p), p.String()
	for k := 1 + c.Intn(2); k > 0; k-- {
		ru := c.mergeRule()
		want, gone, joined := mergeModel(pn, ru.mod)
		c.Trace("rule %s", ru.name)
		np := p.MergeText(ru.rule)
		c.Event("merges")
		c.EventN("runs merged away", gone)
		c.EventN("texts joined", joined)
		if gone > 0 {
			c.Distinct(ru.name + want.canon())
			c.Sample("rule " + ru.name + ": " + pn.str() + "  =>  " + want.str())
		}
		if got := np.String(); got != text {
			c.ViolateD("text", pn.str(), "rule %s: the text was %q, merged it is %q", ru.name, text, got)
		}
		// the parts that are not text are the same objects, in order
		c.sameAtoms(p, &np)
		// texts are joined, and none is empty
		for _, ch := range np.Children {
			r, ok := ch.(*docx.Run)
			if !ok {
				continue
			}
			last := false
			for _, k := range r.Children {
				t, ok := k.(*docx.Text)
				if ok && last {
					c.ViolateD("not-joined", pn.str(), "rule %s: two texts in a row remain in one run", ru.name)
				}
				if ok && t.Text == "" {
					c.ViolateD("empty-text", pn.str(), "rule %s: an empty text remains", ru.name)
				}
				last = ok
			}
		}
		c.sameSpaces(p, &np, ru.name)
		if dump(p) != snap {
			c.ViolateD("source", pn.str(), "rule %s: merging changed the source: %s", ru.name, firstDiff(snap, dump(p)))
			return
		}
		// as saved
		d.Document.Body.Items[0] = &np
		out := c.mustSave(d, "merged document")
		d.Document.Body.Items[0] = p
		if out == nil {
			return
		}
		s := c.checkPackage(out, SoundOpt{AllowDangling: genDangling})
		if s == nil {
			return
		}
		a := noSpaceAttr(bodyOf([]*Node{want}).resolved(rf).erased())
		b := noSpaceAttr(s.body().resolved(s.refs()).erased())
		if df := diffTrees(a, b); df != "" {
			c.ViolateD("merged:"+diffSig(df), "source: "+pn.str()+"\nwant: "+want.str(), "rule %s: %s", ru.name, df)
			return
		}
		// merging again changes nothing
		np2 := np.MergeText(ru.rule)
		if x, y := dump(&np), dump(&np2); x != y {
			c.ViolateD("again", pn.str(), "rule %s: merging again changed it: %s", ru.name, firstDiff(x, y))
			return
		}
		if c.Failed() {
			return
		}
	}
}

// doubled lets a run hold some of its children twice.
func (c *Ctx) doubled(p *docx.Paragraph, pn *Node) {
	rs := elemKids(pn, "w:r", "w:hyperlink", "w:rPr")
	if len(rs) != len(p.Children) {
		return
	}
	for i, ch := range p.Children {
		r, ok := ch.(*docx.Run)
		if !ok || rs[i].Tag != "w:r" || c.Intn(2) == 0 {
			continue
		}
		ks := elemKids(rs[i], "w:t", "w:tab", "w:br")
		var kids []interface{}
		n := 0
		for _, k := range r.Children {
			kids = append(kids, k)
			switch k.(type) {
			case *docx.Text, *docx.Tab, *docx.BarterRabbet:
			default:
				continue
			}
			if n >= len(ks) {
				return
			}
			x := ks[n]
			n++
			if c.Intn(2) == 0 {
				kids = append(kids, k)
				for j, y := range rs[i].Kids {
					if y == x {
						rs[i].insert(j+1, x.clone())
						break
					}
				}
				c.Event("objects held twice")
			}
		}
		r.Children = kids
	}
}

// sameAtoms checks that everything that is not text is there, in order.
func (c *Ctx) sameAtoms(p, np *docx.Paragraph) {
	atoms := func(p *docx.Paragraph) (r []interface{}) {
		for _, ch := range p.Children {
			if o, ok := ch.(*docx.Run); ok {
				for _, k := range o.Children {
					if _, ok := k.(*docx.Text); !ok {
						r = append(r, k)
					}
				}
				continue
			}
			r = append(r, ch)
		}
		return
	}
	a, b := atoms(p), atoms(np)
	if len(a) != len(b) {
		c.Violate("atoms", "%d tabs, breaks, drawings and links before merging, %d after", len(a), len(b))
		return
	}
	for i := range a {
		switch a[i].(type) {
		case *docx.Hyperlink:
			c.Event("links kept")
		case *docx.Drawing:
			c.Event("drawings kept")
		}
		if a[i] == b[i] {
			continue
		}
		if reflect.TypeOf(a[i]) != reflect.TypeOf(b[i]) || dump(a[i]) != dump(b[i]) {
			c.Violate("atoms", "element %d (%T) changed in the merge", i, a[i])
		}
	}
}

// sameSpaces checks that white space that mattered before still does: if the
// text that owns the first or last white space of a joined text was to be
// preserved, so is the joined one.
func (c *Ctx) sameSpaces(p, np *docx.Paragraph, rule string) {
	type ch struct {
		r    byte
		keep bool
	}
	chars := func(p *docx.Paragraph) (cs []ch) {
		for _, x := range p.Children {
			r, ok := x.(*docx.Run)
			if !ok {
				continue
			}
			for _, k := range r.Children {
				if t, ok := k.(*docx.Text); ok {
					for i := 0; i < len(t.Text); i++ {
						cs = append(cs, ch{t.Text[i], t.XMLSpace == "preserve"})
					}
				}
			}
		}
		return
	}
	src := chars(p)
	i := 0
	for _, x := range np.Children {
		r, ok := x.(*docx.Run)
		if !ok {
			continue
		}
		for _, k := range r.Children {
			t, ok := k.(*docx.Text)
			if !ok || t.Text == "" {
				continue
			}
			if i+len(t.Text) > len(src) {
				return // reported as a different text
			}
			a, b := src[i], src[i+len(t.Text)-1]
			i += len(t.Text)
			ws := func(x ch) bool { return strings.IndexByte(" \t\r\n", x.r) >= 0 && x.keep }
			if (ws(a) || ws(b)) && t.XMLSpace != "preserve" {
				c.Violate("space", "rule %s: the white space around %q was to be preserved and is not any more", rule, short(t.Text))
			}
		}
	}
}
