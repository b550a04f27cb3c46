package main

import (
	"math/rand"
	"strings"
)

func init() {
	register(&Prop{ID: "C02", Quick: 24000, Deep: 400000, Run: runC02,
		Rule:   "random canonical documents over the whole supported vocabulary, parsed and saved; the saved document must be the same tree and a second cycle must change nothing; non-trivial: document with at least 5 elements",
		Probes: c02Probes, Need: map[string]int{"trees compared": 800}})
}

func runC02(c *Ctx) {
	tags := map[string]int{}
	w := newWorld(c.Rand, WorldOpt{Items: c.Intn(7), Images: c.Intn(4), Links: c.Intn(3), OddIDs: c.Chance(0.3),
		Style: &Style{r: c.Rand, Shuffle: c.Chance(0.5), Order: []float64{0, 0, 0.3}[c.Intn(3)]}, Setup: func(g *Gen) { g.Tags = tags }})
	if c.Chance(0.25) {
		if k := deepen(c.Rand, w.Doc, 1+c.Intn([]int{4, 12, 40}[c.Intn(3)])); k > 0 {
			c.Event("documents with text boxes within text boxes")
			w.Pkg.replace(docPart, []byte(plainStyle().render(w.Doc)))
		}
	}
	in := w.bytes(c.Rand)
	if w.Doc.count() >= 5 {
		c.Distinct(w.Doc.canon())
	}
	c.Sample(w.Doc.str())
	d := c.mustOpen(in, "generated package")
	if d == nil {
		return
	}
	out := c.mustSave(d, "parsed package")
	if out == nil {
		return
	}
	got, err := docOf(out)
	if err != nil {
		c.ViolateD("malformed", w.Doc.str(), "saved document: %v", err)
		return
	}
	c.Event("trees compared")
	c.EventN("elements compared", w.Doc.count())
	if df := diffTrees(w.Doc, got); df != "" {
		c.ViolateD("lost:"+diffSig(df), w.Doc.str(), "after one parse/save: %s", df)
		return
	}
	d2 := c.mustOpen(out, "saved package")
	if d2 == nil {
		return
	}
	out2 := c.mustSave(d2, "re-parsed package")
	if out2 == nil {
		return
	}
	p1, _ := readPkg(out)
	p2, err := readPkg(out2)
	if err != nil {
		c.Violate("malformed", "second save: %v", err)
		return
	}
	for _, x := range p1.Parts {
		y, ok := p2.get(x.Name)
		if !ok || string(y) != string(x.Data) {
			c.Violate("not-fixpoint", "part %s differs after a second parse/save", x.Name)
		}
	}
	for t, k := range tags {
		c.EventN("tag "+t, k)
	}
	_ = strings.ToLower
}

// deepen puts paragraphs with a text box within the text boxes of their like,
// many times over, and tells how many.
func deepen(r *rand.Rand, root *Node, levels int) int {
	type place struct {
		p  *Node
		at int
	}
	var ps []place
	var find func(n *Node)
	find = func(n *Node) {
		for i, k := range n.Kids {
			if k.Tag == "w:p" && inner(k, "w:txbxContent") != nil && k.count() < 300 {
				ps = append(ps, place{n, i})
			} else if k.Tag != "" {
				find(k)
			}
		}
	}
	find(root)
	if len(ps) == 0 {
		return 0
	}
	x := ps[r.Intn(len(ps))]
	p := x.p.Kids[x.at]
	in := p.clone()
	for i := 0; i < levels; i++ {
		q := p.clone()
		t := inner(q, "w:txbxContent")
		t.insert(len(t.Kids), in)
		in = q
	}
	x.p.Kids[x.at] = in
	return levels
}

// inner gives the first element of a name within another.
func inner(n *Node, tag string) *Node {
	for _, k := range n.Kids {
		if k.Tag == tag {
			return k
		}
		if k.Tag != "" {
			if f := inner(k, tag); f != nil {
				return f
			}
		}
	}
	return nil
}
