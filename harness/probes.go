package main

import (
	"math/rand"
	"strings"

	docx "github.com/fumiama/go-docx"
)

// docWith makes a deterministic document that contains the tag.
func docWith(tag string, setup func(g *Gen)) *Node {
	for s := int64(1); s < 4000; s++ {
		g := &Gen{Rand: rand.New(rand.NewSource(s)), Embeds: []string{"rId1"}, NoDangle: true, SimpleTxt: true}
		if setup != nil {
			setup(g)
		}
		if d := g.document(2); d.find(tag) != nil && d.count() < 400 {
			return d
		}
	}
	panic("no document with " + tag)
}

// pkgWith makes a small package around a document; rId1 is a picture, rId2 a link.
func pkgWith(doc *Node) []byte {
	r := rand.New(rand.NewSource(1))
	w := newWorld(r, WorldOpt{})
	w.Pkg.replace(docPart, []byte(plainStyle().render(doc)))
	w.Pkg.replace(relsPart, relsXML([]Rel{{"rId1", relImage, "media/image1.png", ""}, {"rId2", relLink, "http://example.com/", "External"}}, plainStyle()))
	w.Pkg.put("word/media/image1.png", makeImage(r, "png", 3, 4))
	return w.Pkg.zipBytes(r)
}

// kept saves the parsed document and compares.
func (c *Ctx) kept(sig, what string, doc *Node) {
	d := c.mustOpen(pkgWith(doc), what)
	if d == nil {
		return
	}
	out := c.mustSave(d, what)
	if out == nil {
		return
	}
	got, err := docOf(out)
	if err != nil {
		c.Violate("malformed", "%s: %v", what, err)
		return
	}
	if df := diffTrees(doc, got); df != "" {
		c.ViolateD(sig, doc.str(), "%s: %s", what, df)
	}
}

func probe(name string, f func(c *Ctx)) Probe { return Probe{Name: name, Run: f} }

// zeroProbe: optional numbers with the explicit value zero.
func zeroProbe(tag string, keys ...string) Probe {
	return probe("zero "+tag, func(c *Ctx) {
		doc := docWith(tag, nil)
		n := doc.find(tag)
		base := doc.clone()
		for _, k := range keys {
			n.del(k)
			base.find(tag).del(k)
		}
		c.kept("keep:"+tag, tag+" without its optional numbers", base)
		for _, k := range keys {
			n.set(k, "0")
		}
		c.kept("zero:"+tag, "explicit zero values of "+tag, doc)
	})
}

// absentProbe: optional attributes that the source leaves out.
func absentProbe(tag string, keys ...string) Probe {
	return probe("absent "+tag, func(c *Ctx) {
		doc := docWith(tag, nil)
		for _, k := range keys {
			doc.find(tag).del(k)
		}
		c.kept("absent:"+tag, tag+" without "+strings.Join(keys, " "), doc)
	})
}

// defaultProbe: an attribute that the source leaves out may come back with
// the value that leaving it out means.
func defaultProbe(tag, key, val string) Probe {
	return probe("default "+tag, func(c *Ctx) {
		doc := docWith(tag, nil)
		doc.find(tag).del(key)
		want := doc.clone()
		want.find(tag).set(key, val)
		d := c.mustOpen(pkgWith(doc), tag)
		if d == nil {
			return
		}
		out := c.mustSave(d, tag)
		if out == nil {
			return
		}
		got, err := docOf(out)
		if err != nil {
			c.Violate("malformed", "%v", err)
			return
		}
		if df := diffTrees(want, got); df != "" && diffTrees(doc, got) != "" {
			c.Violate("default:"+tag, "%s without %s, which means %s: %s", tag, key, val, df)
		}
	})
}

var c02Probes = []Probe{
	zeroProbe("w:spacing", "w:beforeLines", "w:before", "w:line"),
	zeroProbe("w:ind", "w:leftChars", "w:left", "w:firstLineChars", "w:firstLine", "w:hangingChars", "w:hanging"),
	zeroProbe("w:tab", "w:pos"),
	zeroProbe("w:tblpPr", "w:leftFromText", "w:rightFromText", "w:tblpX", "w:tblpY"),
	zeroProbe("w:top", "w:sz", "w:space"),
	zeroProbe("a:ln", "w"),
	absentProbe("w:cols", "w:space"),
	absentProbe("w:docGrid", "w:linePitch"),
	absentProbe("w:tblLook", "w:firstRow", "w:lastRow", "w:firstColumn", "w:lastColumn", "w:noHBand", "w:noVBand"),
	absentProbe("wps:bodyPr", "lIns", "tIns", "rIns", "bIns"),
	absentProbe("a:tile", "tx", "ty", "sx", "sy"),
	defaultProbe("w:adjustRightInd", "w:val", "1"),
	defaultProbe("w:snapToGrid", "w:val", "1"),
	defaultProbe("w:kinsoku", "w:val", "1"),
	defaultProbe("w:overflowPunct", "w:val", "1"),
	defaultProbe("w:tcW", "w:w", "0"),
	defaultProbe("w:tblW", "w:w", "0"),
	defaultProbe("w:trHeight", "w:val", "0"),
	probe("iCs off", func(c *Ctx) {
		doc := docWith("w:iCs", nil)
		doc.find("w:iCs").set("w:val", "0")
		c.kept("iCs-off", "w:iCs switched off", doc)
	}),
	probe("no prstGeom", func(c *Ctx) {
		doc := docWith("wps:spPr", nil)
		sp := doc.find("wps:spPr")
		var ks []*Node
		for _, k := range sp.Kids {
			if k.Tag != "a:prstGeom" {
				ks = append(ks, k)
			}
		}
		sp.Kids = ks
		c.kept("no-prstGeom", "shape properties without a preset geometry", doc)
	}),
}

// nestedPic is a canvas or shape that shows a picture.
func nestedDocs() map[string]*Node {
	fill := el("a:blipFill", el("a:blip").set("r:embed", "rId1"), el("a:srcRect")).set("dpi", "0").set("rotWithShape", "1")
	spPr := func(kids ...*Node) *Node {
		return el("wps:spPr", append([]*Node{
			el("a:xfrm", el("a:off").set("x", "0").set("y", "0"), el("a:ext").set("cx", "9").set("cy", "9")), el("a:prstGeom").set("prst", "rect")}, kids...)...)
	}
	body := el("wps:bodyPr").set("rot", "0").set("lIns", "0").set("tIns", "0").set("rIns", "0").set("bIns", "0").set("anchorCtr", "0").set("upright", "0")
	wsp := func(kids ...*Node) *Node { return el("wps:wsp", append(kids, body)...) }
	frame := func(gd *Node) *Node {
		return el("w:drawing", el("wp:inline", el("wp:extent").set("cx", "9").set("cy", "9"), el("wp:docPr").set("id", "1").set("name", "x"), el("a:graphic", gd)).
			set("distT", "0").set("distB", "0").set("distL", "0").set("distR", "0"))
	}
	para := func(d *Node) *Node { return el("w:document", el("w:body", el("w:p", el("w:r", d)))) }
	link := el("w:hyperlink", el("w:r", el("w:instrText", tx("x")))).set("r:id", "rId2")
	return map[string]*Node{
		"shape filled with a picture":        para(frame(el("a:graphicData", wsp(el("wps:cNvSpPr"), spPr(fill))).set("uri", uriWPS))),
		"text box with a link":               para(frame(el("a:graphicData", wsp(el("wps:cNvSpPr"), spPr(), el("wps:txbx", el("w:txbxContent", el("w:p", link))))).set("uri", uriWPS))),
		"canvas with a shape with a picture": para(frame(el("a:graphicData", el("wpc:wpc", el("wpc:bg"), el("wpc:whole"), wsp(el("wps:cNvSpPr"), spPr(fill)))).set("uri", uriWPC))),
	}
}

// carriedProbe: references inside shapes and canvases, split or appended.
func carriedProbe(op, kind string) Probe {
	return probe(op+" "+kind, func(c *Ctx) {
		doc := nestedDocs()[kind]
		c.kept("keep", kind, doc)
		if c.Failed() {
			return
		}
		src := c.mustOpen(pkgWith(doc), kind)
		if src == nil {
			return
		}
		var to *docx.Docx
		if op == "append" {
			to = docx.New().WithDefaultTheme()
			_, _ = to.AddParagraph().AddInlineDrawing(makeImage(c.Rand, "gif", 8, 8))
			to.AddParagraph().AddLink("other", "http://other/")
			to.AppendFile(src)
		} else {
			ds := src.SplitByParagraph(func(*docx.Paragraph) bool { return true })
			if len(ds) != 1 {
				c.Violate("pieces", "%d pieces", len(ds))
				return
			}
			to = ds[0]
		}
		if ok, b := leads(c, src, kind); !ok && b {
			c.Violate("control", "%s: the reference is lost by saving alone", kind)
		}
		if ok, b := leads(c, to, kind); !ok && b {
			c.Violate("nested-reference:"+op+":"+strings.ReplaceAll(kind, " ", "-"), "%s: after %s, its reference does not lead to what it led to before", kind, op)
		}
	})
}

// leads says whether the reference in the last item that has one resolves to
// the picture or link of pkgWith.
func leads(c *Ctx, d *docx.Docx, kind string) (ok, valid bool) {
	b := c.mustSave(d, kind)
	if b == nil {
		return
	}
	pk, err := readPkg(b)
	if err != nil {
		c.Violate("bad-zip", "%v", err)
		return
	}
	got, err := docOf(b)
	if err != nil {
		c.Violate("malformed", "%v", err)
		return
	}
	rels := map[string]Rel{}
	if rb, ok := pk.get(relsPart); ok {
		rs, _ := parseRels(rb)
		for _, x := range rs {
			rels[x.ID] = x
		}
	}
	items := got.first("w:body").Kids
	last := items[len(items)-1]
	if bl := last.find("a:blip"); bl != nil {
		data, _ := pk.get(resolveTarget(rels[bl.get("r:embed")].Target))
		ok = hash(data) == hash(makeImagePNG())
	} else if h := last.find("w:hyperlink"); h != nil {
		ok = rels[h.get("r:id")].Target == "http://example.com/"
	}
	return ok, true
}

// makeImagePNG is the picture of pkgWith.
func makeImagePNG() []byte {
	r := rand.New(rand.NewSource(1))
	newWorld(r, WorldOpt{})
	return makeImage(r, "png", 3, 4)
}

func carriedProbes(op string) (ps []Probe) {
	for _, k := range []string{"shape filled with a picture", "text box with a link", "canvas with a shape with a picture"} {
		ps = append(ps, carriedProbe(op, k))
	}
	return
}

var c06Probes = []Probe{
	probe("content type of an added picture", func(c *Ctx) {
		in := pkgWith(el("w:document", el("w:body")))
		pk, err := readPkg(in)
		if err != nil {
			panic(err)
		}
		pk.replace(ctPart, ctXML(c.Rand, [][2]string{{"/word/document.xml", "application/vnd.openxmlformats-officedocument.wordprocessingml.document.main+xml"}},
			[][2]string{{"rels", "application/vnd.openxmlformats-package.relationships+xml"}, {"xml", "application/xml"}, {"png", "image/png"}}))
		d := c.mustOpen(pk.zipBytes(c.Rand), "package")
		if d == nil {
			return
		}
		if _, err := d.AddParagraph().AddInlineDrawing(makeImage(c.Rand, "gif", 5, 5)); err != nil {
			c.Violate("image", "AddInlineDrawing: %v", err)
			return
		}
		out := c.mustSave(d, "package")
		if out == nil {
			return
		}
		op, err := readPkg(out)
		if err != nil {
			c.Violate("bad-zip", "%v", err)
			return
		}
		ct, _ := op.get(ctPart)
		if !strings.Contains(string(ct), `Extension="gif"`) {
			c.Violate("added-content-type", "a gif added to a package that declares no gif has no content type")
		}
	}),
	probe("loaded items with references", func(c *Ctx) {
		d := c.mustOpen(pkgWith(el("w:document", el("w:body", el("w:p", el("w:hyperlink", el("w:r", el("w:instrText", tx("x")))).set("r:id", "rId2"))))), "package")
		if d == nil {
			return
		}
		n := docx.LoadBodyItems(d.Document.Body.Items, nil).WithDefaultTheme()
		out := c.mustSave(n, "loaded items")
		if out == nil {
			return
		}
		op, err := readPkg(out)
		if err != nil {
			c.Violate("bad-zip", "%v", err)
			return
		}
		got, err := docOf(out)
		if err != nil {
			c.Violate("malformed", "%v", err)
			return
		}
		rb, _ := op.get(relsPart)
		rs, _ := parseRels(rb)
		h := got.find("w:hyperlink")
		if h == nil {
			c.Violate("lost", "no hyperlink")
			return
		}
		for _, x := range rs {
			if x.ID == h.get("r:id") && x.Target == "http://example.com/" {
				return
			}
		}
		c.Violate("loaded-reference", "a link of items given to LoadBodyItems refers to relationship %s, which is not its own", h.get("r:id"))
	}),
}

// find gives the first descendant with a tag.
func (n *Node) find(tag string) (r *Node) {
	n.walk(func(k *Node) {
		if r == nil && k.Tag == tag {
			r = k
		}
	})
	return
}
