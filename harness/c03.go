package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
)

func init() {
	register(&Prop{ID: "C03", Quick: 14000, Deep: 300000, Run: runC03,
		Rule: "one random canonical document written twice: plainly, and with one random mix of spelling variations (namespace prefixes, local declarations, whitespace, comments, PIs, CDATA, character references, quoting, attribute order, unknown elements and attributes, AlternateContent wrappers, boolean words, zip layout); both are parsed and saved and must give the same tree; non-trivial: a document whose variant differs in at least 3 places",
		Need: map[string]int{"variants compared": 700, "whitespace": 50, "comment": 50, "unknown element": 50, "known content in unknown elements": 500, "unknown attribute": 50, "cdata": 50, "charref": 50, "alternate content": 20, "comment in text": 20, "empty pair": 50}})
}

// randomStyle picks a mix of spelling variations.
func randomStyle(r *rand.Rand) *Style {
	s := &Style{r: r, Counts: map[string]int{}}
	p := func() float64 {
		switch r.Intn(4) {
		case 0:
			return 0
		case 1:
			return 0.02
		case 2:
			return 0.15
		}
		return 0.5
	}
	if r.Intn(3) == 0 {
		s.Hidden = []float64{0.02, 0.1, 0.4}[r.Intn(3)]
	}
	s.Space, s.Comment, s.Unknown, s.UnkAttr = p(), p()/2, p()/2, p()
	s.CharRef, s.CData, s.TextCmt, s.Pair, s.SglQuote = p()/3, p(), p()/2, p(), p()
	s.Alternate = p() * 2
	s.Shuffle = r.Intn(2) == 0
	s.Order = p()
	s.LocalNS = r.Intn(2) == 0
	switch r.Intn(4) {
	case 0:
		s.Prefixes = map[string]string{}
		for i, k := range []string{"w", "r", "wp", "wps", "wpc", "wpg", "mc", "a", "pic"} {
			if r.Intn(2) == 0 {
				s.Prefixes[k] = fmt.Sprintf("n%d", i)
			}
		}
	case 1:
		s.Prefixes = map[string]string{"w": ""}
	case 2: // prefixes that mean something else elsewhere
		s.Prefixes = map[string]string{"w": "a", "a": "w", "wps": "wpg", "wpg": "wps", "r": "pic", "pic": "r"}
	}
	return s
}

var onOffTags = map[string]bool{"w:adjustRightInd": true, "w:snapToGrid": true, "w:kinsoku": true, "w:overflowPunct": true}

// boolKeys are the attributes with a boolean value, per element.
func boolAttr(tag, key string) bool {
	if onOffTags[tag] && key == "w:val" {
		return true
	}
	spec := vocabAttrs[tag]
	return strings.Contains(" "+spec+" ", " "+key+":b!") || strings.Contains(" "+spec+" ", " "+key+":b?")
}

// boolWords respells boolean values; it returns how many it changed.
func boolWords(r *rand.Rand, n *Node, p float64) (k int) {
	n.walk(func(m *Node) {
		for i := range m.Attrs {
			a := &m.Attrs[i]
			if !boolAttr(m.Tag, a.Key) || r.Float64() >= p {
				continue
			}
			switch a.Val {
			case "1":
				a.Val = "true"
				if onOffTags[m.Tag] && r.Intn(2) == 0 {
					a.Val = "on"
				}
				k++
			case "0":
				a.Val = "false"
				if onOffTags[m.Tag] && r.Intn(2) == 0 {
					a.Val = "off"
				}
				k++
			}
		}
	})
	return
}

func sortedTags(m map[string][]*Node) (ts []string) {
	for t := range m {
		ts = append(ts, t)
	}
	sort.Strings(ts)
	return
}

func runC03(c *Ctx) {
	w := newWorld(c.Rand, WorldOpt{Items: 1 + c.Intn(5), Images: c.Intn(3), Links: c.Intn(3)})
	// on/off elements get boolean values here
	w.Doc.walk(func(n *Node) {
		if onOffTags[n.Tag] {
			for i := range n.Attrs {
				n.Attrs[i].Val = fmt.Sprint(c.Intn(2))
			}
		}
	})
	st := randomStyle(c.Rand)
	tree := w.Doc.clone()
	nb := 0
	if c.Chance(0.4) {
		nb = boolWords(c.Rand, tree, 0.5)
		c.EventN("boolean words", nb)
	}
	st.learn(tree)
	if c.Chance(0.5) { // also what occurs in other documents
		g := &Gen{Rand: c.Rand, Embeds: []string{"rId1"}, Links: []string{"rId1"}}
		other := g.document(2)
		own := st.pool
		st.learn(other)
		for _, t := range sortedTags(own) {
			st.pool[t] = append(st.pool[t], own[t]...)
		}
	}
	variant := st.render(tree)
	w.Pkg.replace(docPart, []byte(plainStyle().render(w.Doc)))
	plain := w.bytes(nil)
	w.Pkg.replace(docPart, []byte(variant))
	w.Pkg.replace(relsPart, relsXML(w.Rels, st))
	if c.Chance(0.3) {
		w.Pkg.Parts = append([]Part{{"word/", nil}, {"word/media/", nil}, {"_rels/", nil}}, w.Pkg.Parts...)
		c.Event("directory entries")
	}
	var zr *rand.Rand
	if c.Chance(0.5) {
		zr = c.Rand
	}
	vb := w.bytes(zr)
	total := nb
	for k, v := range st.Counts {
		c.EventN(k, v)
		total += v
	}
	if total >= 3 {
		c.Distinct(variant)
	}
	c.Sample(variant)
	d1, d2 := c.mustOpen(plain, "plain package"), (interface{})(nil)
	_ = d2
	if d1 == nil {
		return
	}
	dv, err := open(vb)
	if err != nil {
		c.ViolateD("variant-rejected", variant, "the variant spelling cannot be opened: %v", err)
		return
	}
	o1 := c.mustSave(d1, "plain")
	ov, err := save(dv)
	if err != nil {
		c.ViolateD("variant-unsavable", variant, "the variant spelling cannot be saved: %v", err)
		return
	}
	t1, err1 := docOf(o1)
	tv, err2 := docOf(ov)
	if err1 != nil || err2 != nil {
		c.ViolateD("malformed", variant, "saved documents: %v / %v", err1, err2)
		return
	}
	c.Event("variants compared")
	if df := diffTrees(t1, tv); df != "" {
		c.ViolateD("variant:"+diffSig(df), variant, "variant spelling changes the document: %s", df)
		return
	}
	if df := diffTrees(w.Doc, tv); df != "" {
		c.ViolateD("variant:"+diffSig(df), variant, "variant spelling loses content: %s", df)
		return
	}
	// relationships must be the same as well
	p1, _ := readPkg(o1)
	pv, err := readPkg(ov)
	if err != nil {
		c.Violate("malformed", "%v", err)
		return
	}
	x1, _ := p1.get(relsPart)
	xv, _ := pv.get(relsPart)
	r1, e1 := parseRels(x1)
	rv, e2 := parseRels(xv)
	if e1 != nil || e2 != nil || fmt.Sprint(r1) != fmt.Sprint(rv) {
		c.Violate("variant-rels", "relationships differ: %v %v\n%v\n%v", e1, e2, r1, rv)
	}
}
