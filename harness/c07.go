package main

import (
	"strings"

	docx "github.com/fumiama/go-docx"
)

func init() {
	register(&Prop{ID: "C07", Quick: 15000, Deep: 100000, Run: runC07,
		Rule: "parsed packages with arbitrary other parts and pictures, and built documents on the default template, are edited at random, saved, split, appended and re-opened; every part that is not word/document.xml or its relationships must come out with the same name and bytes, plus exactly the pictures that were added; non-trivial: at least one edit and 5 parts",
		Need: map[string]int{"parts compared": 20000, "added pictures found": 1500, "relationships compared": 20000, "pieces": 1500, "re-opened": 800}})
}

// otherParts are all parts but the document, its relationships and the media.
func otherParts(pk *Pkg) (other, media map[string][]byte) {
	other, media = map[string][]byte{}, map[string][]byte{}
	for _, x := range pk.Parts {
		switch {
		case strings.HasSuffix(x.Name, "/"), x.Name == docPart, x.Name == relsPart:
		case strings.HasPrefix(x.Name, "word/media/"):
			media[x.Name] = x.Data
		default:
			other[x.Name] = x.Data
		}
	}
	return
}

// templateParts are the parts of the default template.
func templateParts() map[string][]byte {
	m := map[string][]byte{}
	for _, n := range docx.DefaultTemplateFilesList {
		b, err := docx.TemplateXMLFS.ReadFile("xml/default/" + n)
		if err != nil {
			panic(err)
		}
		m[n] = b
	}
	return m
}

// checkParts compares the parts of a saved document with what they must be:
// others exactly, the old media exactly, and the new media as a set of bytes.
func (c *Ctx) checkParts(what string, d *docx.Docx, other, media map[string][]byte, added map[string]int) []byte {
	out := c.mustSave(d, what)
	if out == nil {
		return nil
	}
	pk, err := readPkg(out)
	if err != nil {
		c.Violate("bad-zip", "%s: %v", what, err)
		return nil
	}
	want := map[string][]byte{}
	for n, b := range other {
		want[n] = b
	}
	for n, b := range media {
		want[n] = b
	}
	except := map[string]bool{docPart: true, relsPart: true}
	left := map[string]int{}
	for h, k := range added {
		left[h] = k
	}
	for _, x := range pk.Parts {
		if _, old := want[x.Name]; old || !strings.HasPrefix(x.Name, "word/media/") {
			continue
		}
		h := hash(x.Data)
		if _, ok := added[h]; ok {
			left[h] = 0
			except[x.Name] = true
			c.Event("added pictures found")
		}
	}
	for h, k := range left {
		if k > 0 {
			c.Violate("picture-lost", "%s: the added picture %s is not in the package", what, h)
		}
	}
	c.sameParts("part", what, want, pk, except)
	return out
}

// picsIn counts the pictures a resolved body shows.
func picsIn(items []*Node) map[string]int {
	m := map[string]int{}
	for _, it := range items {
		it.walk(func(n *Node) {
			if n.Tag == "a:blip" {
				if e := n.get("r:embed"); strings.HasPrefix(e, "image:") {
					m[strings.TrimPrefix(e, "image:")]++
				}
			}
		})
	}
	return m
}

func runC07(c *Ctx) {
	var p *PD
	var other, media map[string][]byte
	var rels []Rel
	if c.Chance(0.2) {
		p = &PD{name: "built", Builder: c.build(c.Intn(5), nil)}
		other, media = templateParts(), map[string][]byte{}
	} else {
		w := newWorld(c.Rand, WorldOpt{Items: c.Intn(5), Images: c.Intn(5), Links: c.Intn(3), OddIDs: c.Chance(0.6), Extra: true, DirEntry: c.Chance(0.2), Setup: copySafe, Types: imageFormats, ModelessLinks: true})
		if c.Chance(0.05) { // a large part
			b := make([]byte, 1<<20+c.Intn(1<<20))
			c.Read(b)
			n := []string{"word/embeddings/large.bin", "word/media/large.png", "word/styles9.xml"}[c.Intn(3)]
			w.Pkg.put(n, b)
		}
		d := c.mustOpen(w.bytes(c.Rand), "generated package")
		if d == nil {
			return
		}
		p = &PD{name: "parsed", Builder: c.newBuilder()}
		p.d = d
		rf := w.refs()
		for _, it := range w.Doc.first("w:body").Kids {
			p.mod.Items = append(p.mod.Items, it.resolved(rf))
		}
		other, media = otherParts(w.Pkg)
		rels = w.Rels
	}
	added := map[string]int{}
	count := func() { // pictures added by the builder so far
		added = map[string]int{}
		for _, h := range p.mod.Refs.Img {
			added[h]++
		}
	}
	n := c.Intn(6)
	if n > 0 && len(other)+len(media) >= 5 {
		c.Distinct(p.mod.body().canon() + strings.Join(names(other), "|") + strings.Join(names(media), "|"))
	}
	c.Sample(strings.Join(names(other), " ") + " + " + strings.Join(names(media), " "))
	h := &Hist{c: c, sig: "content", pool: []*PD{p}, MaxPool: 1, W: map[string]int{"build": 3, "edit": 3, "drop": 1, "delete": 1, "move": 1}}
	for ; n > 0; n-- {
		if !h.step() {
			return
		}
	}
	count()
	out := c.checkParts("saved", p.d, other, media, added)
	if out == nil || c.Failed() {
		return
	}
	c.checkRels("saved", out, rels)
	switch c.Intn(4) {
	case 0: // another turn
		d := c.mustOpen(out, "saved")
		if d == nil {
			return
		}
		c.Event("re-opened")
		p.d = d
		for k := c.Intn(3); k > 0; k-- {
			if !h.step() {
				return
			}
		}
		count()
		if out = c.checkParts("saved again", p.d, other, media, added); out != nil {
			c.checkRels("saved again", out, rels)
		}
	case 1, 2: // pieces have the other parts and their own pictures only
		docs := p.d.SplitByParagraph(func(*docx.Paragraph) bool { return c.Intn(2) == 0 })
		var at int
		items := p.resolvedItems()
		for i, d := range docs {
			c.Event("pieces")
			k := len(d.Document.Body.Items)
			if at+k > len(items) {
				c.Violate("pieces", "the pieces have more items than the document")
				return
			}
			mine := copiedItems(items[at : at+k])
			at += k
			if c.checkParts("piece", d, other, nil, picsIn(mine)) == nil {
				return
			}
			_ = i
		}
		if out = c.checkParts("after the split", p.d, other, media, added); out != nil {
			c.checkRels("after the split", out, rels)
		}
	case 3: // appending a document brings its pictures and nothing else
		q := &PD{name: "source", Builder: c.build(c.Intn(5), nil)}
		p.d.AppendFile(q.d)
		for h, k := range picsIn(copiedItems(q.resolvedItems())) {
			added[h] += k
		}
		if out = c.checkParts("after appending", p.d, other, media, added); out != nil {
			c.checkRels("after appending", out, rels)
		}
		qa := map[string]int{}
		for _, h := range q.mod.Refs.Img {
			qa[h]++
		}
		c.checkParts("appended source", q.d, templateParts(), nil, qa)
	}
}

// checkRels looks for the relationships a package came with.
func (c *Ctx) checkRels(what string, out []byte, rels []Rel) {
	pk, err := readPkg(out)
	if err != nil {
		c.Violate("bad-zip", "%s: %v", what, err)
		return
	}
	rx, _ := pk.get(relsPart)
	got, err := parseRels(rx)
	if err != nil {
		c.Violate("rels-malformed", "%s: %v", what, err)
		return
	}
	by := map[string]Rel{}
	for _, r := range got {
		by[r.ID] = r
	}
	for _, r := range rels {
		c.Event("relationships compared")
		if by[r.ID] != r {
			c.Violate("relationship", "%s: the relationship %v is now %v", what, r, by[r.ID])
			return
		}
	}
}

func names(m map[string][]byte) []string {
	r := make([]string, 0, len(m))
	for n := range m {
		r = append(r, n)
	}
	sortStrings(r)
	return r
}
