package main

import (
	"bytes"
	"fmt"
	"os"
	"strings"

	docx "github.com/fumiama/go-docx"
)

func init() {
	register(&Prop{ID: "C05", Quick: 20000, Deep: 150000, Run: runC05, CaseCPU: 60,
		Rule: "random sequences of builder calls (every exported builder, hostile strings) checked against an independent model of the document they describe, then continued after a save and re-open; non-trivial: at least 3 items",
		Need: map[string]int{"bodies compared": 3000, "calls AddText": 1000, "calls AddDrawing": 300, "calls AddLink": 300, "calls AddTable": 300, "calls AddTableTwips": 300, "calls AddShape": 300, "calls Font": 50, "calls Strike": 50, "calls NumPr": 20, "calls on opened documents": 2000, "opened documents compared": 800, "documents loaded from parts compared": 300}})
}

// builtOnOpened calls the builders on what an opened document already holds.
func (c *Ctx) builtOnOpened() {
	h := &Hist{c: c, sig: "opened", Fresh: 0, MaxPool: 1}
	p := h.fresh()
	if p == nil {
		return
	}
	p.bare = map[interface{}]bool{}
	var log []string
	for n := 1 + c.Intn(10); n > 0 && !c.Failed(); n-- {
		if c.Intn(8) == 0 {
			p.step()
			log = append(log, "step")
			continue
		}
		ss := c.sites(p.d.Document.Body.Items, p.mod.Items)
		if c.Failed() || len(ss) == 0 {
			break
		}
		s := ss[c.Intn(len(ss))]
		w := ""
		if !c.guard("panic:builder", "building in "+s.where, func() {
			switch o := s.v.(type) {
			case *docx.Paragraph:
				if w = "set"; c.Intn(3) == 0 {
					w = "fill"
					p.fill(o, s.n)
				} else {
					p.setPara(o, s.n)
				}
			case *docx.Run:
				w = "set run"
				p.setRun(o, s.n)
			case *docx.Table:
				w = "justify table"
				v := p.value()
				o.Justification(v)
				s.n.getKid("w:tblPr").setKid(el("w:jc").set("w:val", cleanAttr(v)))
			case *docx.WTableRow:
				w = "justify row"
				v := p.value()
				o.Justification(v)
				s.n.getKid("w:trPr").setKid(el("w:jc").set("w:val", cleanAttr(v)))
			case *docx.WTableCell:
				w = "cell paragraph"
				if c.Intn(2) == 0 {
					w = "shade"
					v, x, y := p.value(), p.value(), p.value()
					o.Shade(v, x, y)
					s.n.getKid("w:tcPr").setKid(optAttr(optAttr(optAttr(el("w:shd"), "w:val", v), "w:color", x), "w:fill", y))
					return
				}
				n := el("w:p")
				q := o.AddParagraph()
				s.n.add(n)
				p.fill(q, n)
			}
		}) {
			return
		}
		if w != "" {
			c.Event("calls on opened documents")
			c.Trace("%s: %s", s.where, w)
			log = append(log, s.where+": "+w)
		}
	}
	if len(log) >= 3 {
		c.Distinct(strings.Join(log, ";") + p.mod.body().canon())
	}
	c.Sample(strings.Join(log, "; "))
	if c.Failed() {
		return
	}
	c.Event("opened documents compared")
	h.check(p, "opened and built on")
}

// loadedParts loads documents from parts of the items and media of another
// one and builds on: each is what was built, and what lies behind a part is
// left alone.
func (c *Ctx) loadedParts() {
	src := c.build(c.Intn(7), func(b *Builder) { b.NoLink, b.NoDraw = true, true })
	all := append([]interface{}(nil), src.d.Document.Body.Items...)
	var ms []docx.Media
	for k := c.Intn(6); k > 0; k-- {
		ms = append(ms, docx.Media{Name: fmt.Sprintf("loaded %d.png", k), Data: makeImage(c.Rand, "png", 1+c.Intn(9), 1+c.Intn(9))})
	}
	items, media := src.d.Document.Body.Items, append(make([]docx.Media, 0, len(ms)+c.Intn(4)), ms...)
	i, j := c.Intn(len(items)+1), c.Intn(len(media)+1)
	parts := []*Builder{c.newBuilder(), c.newBuilder()}
	parts[0].d = docx.LoadBodyItems(items[:i], media[:j]).WithDefaultTheme()
	parts[0].mod.Items = append([]*Node(nil), src.mod.Items[:i]...)
	parts[1].d = docx.LoadBodyItems(items[i:], media[j:]).WithDefaultTheme()
	parts[1].mod.Items = append([]*Node(nil), src.mod.Items[i:]...)
	if c.Intn(3) == 0 { // all of them twice
		parts = append(parts, c.newBuilder())
		parts[2].d = docx.LoadBodyItems(items, media).WithDefaultTheme()
		parts[2].mod.Items = append([]*Node(nil), src.mod.Items...)
	}
	parts = append(parts, src)
	var log []string
	for n := 1 + c.Intn(8); n > 0; n-- {
		k := c.Intn(len(parts))
		parts[k].step()
		log = append(log, fmt.Sprint("add to ", k))
	}
	log = append(log, fmt.Sprintf("%d of %d items, %d of %d media", i, len(all), j, len(ms)))
	c.Trace("%v", log)
	c.Sample(strings.Join(log, "; "))
	for k, x := range all {
		if len(items) <= k || items[k] != x {
			c.Violate("loaded-over", "item %d of %d given to LoadBodyItems is another one after building on documents loaded from parts of them", k, len(all))
			return
		}
	}
	for k, m := range ms {
		if media[k].Name != m.Name || !bytes.Equal(media[k].Data, m.Data) {
			c.Violate("loaded-over", "the media %d of %d given to LoadBodyItems is %q, not %q, after building", k, len(ms), media[k].Name, m.Name)
			return
		}
	}
	for k, b := range parts {
		for x, m := range ms {
			if (k == 0 && x >= j) || (k == 1 && x < j) || b == src {
				continue
			}
			if g := b.d.Media(m.Name); g == nil || !bytes.Equal(g.Data, m.Data) {
				c.Violate("loaded-media", "a document does not have the media %q it was loaded with", m.Name)
				return
			}
		}
		s := c.savedOK(b.d, "document loaded from parts")
		if s == nil {
			return
		}
		c.compareBodies("built", fmt.Sprintf("document %d loaded from parts is not the one that was built", k), b.mod.body(), b.mod.Refs, s)
		c.checkUnique(s.Doc, "document loaded from parts")
		if c.Failed() {
			return
		}
	}
	c.Event("documents loaded from parts compared")
	if len(all) > 1 {
		c.Distinct(src.mod.body().canon() + fmt.Sprint(i, j))
	}
}

func runC05(c *Ctx) {
	if c.Chance(0.06) {
		c.loadedParts()
		return
	}
	if c.Chance(0.2) {
		c.builtOnOpened()
		return
	}
	b := c.newBuilder()
	b.Odd = c.Chance(0.5)
	dir, err := os.MkdirTemp("", "c05")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	b.Dir = dir
	if c.Chance(0.3) {
		b.d = docx.LoadBodyItems(nil, nil).WithDefaultTheme()
	}
	for n := c.Intn(8); n > 0; n-- {
		b.step()
	}
	if len(b.mod.Items) >= 3 {
		c.Distinct(b.mod.body().canon())
	}
	c.Sample(b.mod.body().str())
	s := c.savedOK(b.d, "built document")
	if s == nil {
		return
	}
	c.compareBodies("built", "the saved document is not the one that was built", b.mod.body(), b.mod.Refs, s)
	c.checkUnique(s.Doc, "built document")
	if c.Failed() || c.Chance(0.5) {
		return
	}
	// go on building after re-opening
	out := c.mustSave(b.d, "built document")
	if out == nil {
		return
	}
	d2 := c.mustOpen(out, "built document")
	if d2 == nil {
		return
	}
	b.d = d2
	for n := 1 + c.Intn(4); n > 0; n-- {
		b.step()
	}
	s = c.savedOK(b.d, "re-opened document")
	if s == nil {
		return
	}
	c.compareBodies("rebuilt", "after re-opening, the saved document is not the one that was built", b.mod.body(), b.mod.Refs, s)
	c.checkUnique(s.Doc, "re-opened document")
	c.Event("continued after re-opening")
}

// savedOK saves and runs the package monitor.
func (c *Ctx) savedOK(d *docx.Docx, what string) *Sound {
	out := c.mustSave(d, what)
	if out == nil {
		return nil
	}
	return c.checkPackage(out, SoundOpt{})
}
