package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	docx "github.com/fumiama/go-docx"
)

// Builder calls the real API and keeps an independent model, in step, of the
// document that the calls describe.
type Builder struct {
	Heavy bool // mostly links, pictures and shapes
	c     *Ctx
	d     *docx.Docx
	mod   *Mod
	// Odd allows characters that XML cannot carry (they become U+FFFD).
	Odd      bool
	Dir      string // where image files may be written
	NoDraw   bool
	bare     map[interface{}]bool // elements made by hand
	NoLink   bool
	fixed    string // the value of all string arguments, if any
	imgTypes []string
	lastImg  []byte // the picture added last, and its size
	lastW    int
	lastH    int
}

// Mod is the model of a document: its body items with content references
// instead of relationship ids, and the pictures and links it must hold.
type Mod struct {
	Items  []*Node
	Refs   Refs
	Images map[string][]byte // hash -> bytes of every picture that was added
	n      int
}

func newMod() *Mod {
	return &Mod{Refs: Refs{map[string]string{}, map[string]string{}}, Images: map[string][]byte{}}
}

func (m *Mod) img(b []byte) string {
	m.n++
	id := "m" + strconv.Itoa(m.n)
	m.Refs.Img[id] = hash(b)
	m.Images[hash(b)] = b
	return id
}

func (m *Mod) link(u string) string {
	m.n++
	id := "m" + strconv.Itoa(m.n)
	m.Refs.URL[id] = u
	return id
}

func (m *Mod) body() *Node { return bodyOf(m.Items) }

// usual are values of which there are many in every document.
var usual = []string{"center", "end", "start", "both", "distribute", "auto", "none", "single", "double", "yellow", "FF0000", "000000", "20", "24", "44", "Arial", "Times New Roman", "clear", "0", "1", "default", "eastAsia", "cs"}

// value makes a string argument.
func (b *Builder) value() string {
	g := &Gen{Rand: b.c.Rand}
	if b.fixed != "" {
		return b.fixed
	}
	if b.Odd && b.c.Intn(12) == 0 {
		return []string{"\x00", "a\x01b", "\xff\xfe", "x\ufffey", "\x1f", "\xed\xa0\x80", "\x0b", "a\xc3"}[b.c.Intn(8)]
	}
	switch b.c.Intn(12) {
	case 0:
		return ""
	case 1, 2, 3:
		return usual[b.c.Intn(len(usual))]
	}
	return g.str()
}

func (b *Builder) textValue() string {
	g := &Gen{Rand: b.c.Rand}
	switch b.c.Intn(8) {
	case 0:
		return strings.Repeat("\n", b.c.Intn(3)) + g.txt() + "\t" + g.txt() + "\n\n" + b.value()
	case 1:
		if b.c.Intn(30) == 0 { // many of them
			return strings.Repeat([]string{"\t", "\n", "a\t", "a\n", "a\tb\n"}[b.c.Intn(5)], many(b.c.Rand)) + "z"
		}
		return "\t"
	case 2:
		return " " + b.value() + "\t\t"
	case 3:
		return b.value()
	case 4:
		return []string{"", "\n", "\t\n\t", "\n\t", " ", "\r", "\r\n", "a\r\nb", "\t\t", " \n ", "\u3000x", "x\u00a0"}[b.c.Intn(12)]
	}
	return g.txt()
}

func cleanAttr(s string) string { return xmlClean(s) }

func rprOf(rn *Node) *Node { return rn.getKid("w:rPr") }

func optAttr(n *Node, key, v string) *Node {
	if v != "" {
		n.set(key, cleanAttr(v))
	}
	return n
}

// textKids is what a text with line breaks and tabs becomes.
func textKids(s string) (ks []*Node) {
	for i, l := range strings.Split(s, "\n") {
		if i > 0 {
			ks = append(ks, el("w:br"))
		}
		for j, t := range strings.Split(l, "\t") {
			if j > 0 {
				ks = append(ks, el("w:tab"))
			}
			if t != "" {
				t = xmlClean(t)
				n := el("w:t", tx(t))
				if t != strings.Trim(t, " \t\r\n") {
					n.set("xml:space", "preserve")
				}
				ks = append(ks, n)
			}
		}
	}
	return
}

// setRun applies one random run setter to a run and its model.
func (b *Builder) setRun(r *docx.Run, rn *Node) {
	c := b.c
	var got *docx.Run
	name := ""
	switch c.Intn(13) {
	case 0:
		v := b.value()
		name = "Color"
		got = r.Color(v)
		rprOf(rn).setKid(el("w:color").set("w:val", cleanAttr(v)))
	case 1:
		v := b.value()
		name = "Size"
		got = r.Size(v)
		rprOf(rn).setKid(el("w:sz").set("w:val", cleanAttr(v)))
	case 2:
		v := b.value()
		name = "SizeCs"
		got = r.SizeCs(v)
		rprOf(rn).setKid(el("w:szCs").set("w:val", cleanAttr(v)))
	case 3:
		v, w, x := b.value(), b.value(), b.value()
		name = "Shade"
		got = r.Shade(v, w, x)
		rprOf(rn).setKid(optAttr(optAttr(optAttr(el("w:shd"), "w:val", v), "w:color", w), "w:fill", x))
	case 4:
		v := c.Intn(2000) - 500
		name = "Spacing"
		got = r.Spacing(v)
		n := el("w:spacing")
		if v != 0 {
			n.set("w:line", strconv.Itoa(v))
		}
		rprOf(rn).setKid(n)
	case 5:
		name = "Bold"
		got = r.Bold()
		rprOf(rn).setKid(el("w:b"))
	case 6:
		name = "Italic"
		got = r.Italic()
		rprOf(rn).setKid(el("w:i"))
	case 7:
		v := b.value()
		name = "Underline"
		got = r.Underline(v)
		rprOf(rn).setKid(optAttr(el("w:u"), "w:val", v))
	case 8:
		v := b.value()
		name = "Highlight"
		got = r.Highlight(v)
		rprOf(rn).setKid(optAttr(el("w:highlight"), "w:val", v))
	case 9:
		v := c.Intn(2) == 0
		name = "Strike"
		got = r.Strike(v)
		rprOf(rn).setKid(el("w:strike").set("w:val", strconv.FormatBool(v)))
	case 10, 11:
		name = "AddTab"
		got = r.AddTab()
		rn.add(el("w:tab"))
	case 12:
		v, w, x, y := b.value(), b.value(), b.value(), b.value()
		name = "Font"
		got = r.Font(v, w, x, y)
		rprOf(rn).setKid(optAttr(optAttr(optAttr(optAttr(el("w:rFonts"), "w:ascii", v), "w:eastAsia", w), "w:hAnsi", x), "w:hint", y))
	}
	c.Event("calls " + name)
	c.Trace("  run.%s", name)
	if got != r {
		c.Violate("chain", "Run.%s does not return its run", name)
	}
}

// setPara applies one random paragraph setter.
func (b *Builder) setPara(p *docx.Paragraph, n *Node) {
	c := b.c
	var got *docx.Paragraph
	ppr := n.getKid("w:pPr")
	name := ""
	switch c.Intn(5) {
	case 0:
		v := b.value()
		name = "Justification"
		got = p.Justification(v)
		ppr.setKid(el("w:jc").set("w:val", cleanAttr(v)))
	case 1:
		v := b.value()
		name = "Style"
		got = p.Style(v)
		ppr.setKid(el("w:pStyle").set("w:val", cleanAttr(v)))
	case 2:
		v, w := b.value(), b.value()
		name = "NumPr"
		got = p.NumPr(v, w)
		ppr.getKid("w:rPr")
		ppr.setKid(el("w:numPr", el("w:numId").set("w:val", cleanAttr(v)), el("w:ilvl").set("w:val", cleanAttr(w))))
	case 3:
		v, w, x, y := b.value(), b.value(), b.value(), b.value()
		name = "NumFont"
		got = p.NumFont(v, w, x, y)
		ppr.getKid("w:rPr").setKid(optAttr(optAttr(optAttr(optAttr(el("w:rFonts"), "w:ascii", v), "w:eastAsia", w), "w:hAnsi", x), "w:hint", y))
	case 4:
		v := b.value()
		name = "NumSize"
		got = p.NumSize(v)
		ppr.getKid("w:rPr").setKid(el("w:sz").set("w:val", cleanAttr(v)))
	}
	c.Event("calls " + name)
	c.Trace("  para.%s", name)
	if got != p {
		c.Violate("chain", "Paragraph.%s does not return its paragraph", name)
	}
}

const maxW = 5274310

// picSize is the display size of a picture in EMU.
func picSize(w, h int) (int64, int64) {
	if float64(w)/float64(h) > 1.2 {
		return maxW, maxW * int64(h) / int64(w)
	}
	return maxW / 2, maxW * int64(h) / int64(w) / 2
}

func i64(v int64) string { return strconv.FormatInt(v, 10) }

func picNode(embed string, cx, cy int64) *Node {
	return el("a:graphic", el("a:graphicData", el("pic:pic",
		el("pic:nvPicPr", el("pic:cNvPr").set("id", "0").set("name", ""), el("pic:cNvPicPr")),
		el("pic:blipFill", el("a:blip").set("r:embed", embed).set("cstate", "print"), el("a:stretch")),
		el("pic:spPr", el("a:xfrm", el("a:off").set("x", "0").set("y", "0"), el("a:ext").set("cx", i64(cx)).set("cy", i64(cy))), el("a:prstGeom").set("prst", "rect")),
	)).set("uri", nsPIC))
}

func frameNode(anchor bool, cx, cy int64, name string, noAspect string, graphic *Node) *Node {
	var f *Node
	lock := el("a:graphicFrameLocks")
	if noAspect != "" {
		lock.set("noChangeAspect", noAspect)
	}
	common := []*Node{
		el("wp:extent").set("cx", i64(cx)).set("cy", i64(cy)),
		el("wp:effectExtent").set("l", "0").set("t", "0").set("r", "0").set("b", "0"),
		el("wp:docPr").set("id", "0").set("name", name),
		el("wp:cNvGraphicFramePr", lock),
		graphic,
	}
	if anchor {
		f = el("wp:anchor").set("simplePos", "0").set("relativeHeight", "0").set("behindDoc", "0").set("locked", "0").set("layoutInCell", "1").set("allowOverlap", "1")
		f.add(el("wp:simplePos").set("x", "0").set("y", "0"),
			el("wp:positionH", el("wp:posOffset", tx("0"))).set("relativeFrom", "column"),
			el("wp:positionV", el("wp:posOffset", tx("0"))).set("relativeFrom", "paragraph"),
			el("wp:wrapNone"))
	} else {
		f = el("wp:inline")
	}
	f.set("distT", "0").set("distB", "0").set("distL", "0").set("distR", "0")
	f.add(common...)
	return el("w:drawing", f)
}

// addPic adds a picture to a paragraph and its model.
func (b *Builder) addPic(p *docx.Paragraph, n *Node, data []byte, w, h int) (*docx.Run, *Node) {
	c := b.c
	anchor := c.Intn(2) == 0
	var r *docx.Run
	var err error
	if b.Dir != "" && c.Intn(4) == 0 {
		f := filepath.Join(b.Dir, fmt.Sprintf("i%d.bin", c.Int63()))
		if e := os.WriteFile(f, data, 0o600); e != nil {
			panic(e)
		}
		if anchor {
			r, err = p.AddAnchorDrawingFrom(f)
		} else {
			r, err = p.AddInlineDrawingFrom(f)
		}
		_ = os.Remove(f)
	} else if anchor {
		r, err = p.AddAnchorDrawing(data)
	} else {
		r, err = p.AddInlineDrawing(data)
	}
	if err != nil || r == nil {
		c.Violate("picture-refused", "a valid picture of %d bytes, %dx%d, is refused: %v", len(data), w, h, err)
		return nil, nil
	}
	c.Event("calls AddDrawing")
	cx, cy := picSize(w, h)
	id := b.mod.img(data)
	d := frameNode(anchor, cx, cy, "", "1", picNode(id, cx, cy))
	if c.Intn(3) == 0 { // resize
		nw, nh := int64(c.Intn(9000000)), int64(c.Intn(9000000))
		for _, k := range r.Children {
			if dr, ok := k.(*docx.Drawing); ok {
				if anchor && dr.Anchor != nil {
					dr.Anchor.Size(nw, nh)
				} else if !anchor && dr.Inline != nil {
					dr.Inline.Size(nw, nh)
				} else {
					c.Violate("picture-kind", "the run of an added picture (anchor=%v) has the other kind of drawing", anchor)
				}
			}
		}
		d = frameNode(anchor, nw, nh, "", "1", picNode(id, nw, nh))
		c.Event("calls Size")
	}
	rn := el("w:r", el("w:rPr"), d)
	n.add(rn)
	c.Trace("  picture %s anchor=%v %dx%d", hash(data), anchor, w, h)
	return r, rn
}

// partLike are link targets that are also the targets of parts, of bookmarks
// or the ids of relationships.
var partLike = []string{"styles.xml", "media/image1.png", "theme/theme1.xml", "settings.xml", "fontTable.xml", "media/image2.jpeg", "rId1", "rId4", "word/document.xml", "#top", "docProps/app.xml"}

func (b *Builder) newImage() ([]byte, int, int) {
	c := b.c
	ty := b.imgTypes
	if len(ty) == 0 {
		ty = imageFormats
	}
	if len(b.lastImg) > 0 && c.Intn(4) == 0 {
		return similar(c.Rand, b.lastImg), b.lastW, b.lastH
	}
	w, h := 1+c.Intn(400), 1+c.Intn(400)
	b.lastImg, b.lastW, b.lastH = makeImage(c.Rand, ty[c.Intn(len(ty))], w, h), w, h
	return b.lastImg, w, h
}

// addShape adds a shape.
func (b *Builder) addShape(p *docx.Paragraph, n *Node) (*docx.Run, *Node) {
	c := b.c
	cx, cy := int64(c.Intn(3000000)), int64(c.Intn(3000000))
	name, bw, prst := b.value(), b.value(), b.value()
	var ln *docx.ALine
	var lnNode *Node
	if c.Intn(3) > 0 {
		w := int64(c.Intn(20000))
		ln = &docx.ALine{W: w}
		lnNode = el("a:ln")
		if w != 0 {
			lnNode.set("w", i64(w))
		}
		if c.Intn(2) == 0 {
			v := b.value()
			ln.SolidFill = &docx.ASolidFill{SrgbClr: &docx.ASrgbClr{Val: v}}
			lnNode.add(el("a:solidFill", el("a:srgbClr").set("val", cleanAttr(v))))
		}
		if c.Intn(2) == 0 {
			ln.Round = &struct{}{}
			lnNode.add(el("a:round"))
		}
		if c.Intn(2) == 0 {
			v := b.value()
			ln.HeadEnd = &docx.AHeadEnd{Type: v}
			lnNode.add(optAttr(el("a:headEnd"), "type", v))
		}
		if c.Intn(2) == 0 {
			v := b.value()
			ln.TailEnd = &docx.ATailEnd{Len: v}
			lnNode.add(optAttr(el("a:tailEnd"), "len", v))
		}
	}
	sp := el("wps:spPr", el("a:xfrm", el("a:off").set("x", "0").set("y", "0"), el("a:ext").set("cx", i64(cx)).set("cy", i64(cy))), el("a:prstGeom").set("prst", cleanAttr(prst)), el("a:noFill"))
	optAttr(sp, "bwMode", bw)
	if lnNode != nil {
		sp.add(lnNode)
	}
	wsp := el("wps:wsp", el("wps:cNvCnPr", el("a:cxnSpLocks")), sp,
		el("wps:bodyPr").set("rot", "0").set("lIns", "0").set("tIns", "0").set("rIns", "0").set("bIns", "0").set("anchorCtr", "0").set("upright", "0"))
	anchor := c.Intn(2) == 0
	var r *docx.Run
	if anchor {
		r = p.AddAnchorShape(cx, cy, name, bw, prst, ln)
	} else {
		r = p.AddInlineShape(cx, cy, name, bw, prst, ln)
	}
	c.Event("calls AddShape")
	rn := el("w:r", el("w:rPr"), frameNode(anchor, cx, cy, cleanAttr(name)+" ", "", el("a:graphic", el("a:graphicData", wsp).set("uri", nsWPS))))
	n.add(rn)
	c.Trace("  shape anchor=%v", anchor)
	return r, rn
}

// addLink adds a hyperlink.
func (b *Builder) addLink(p *docx.Paragraph, n *Node, text, url string) (*docx.Run, *Node) {
	h := p.AddLink(text, url)
	b.c.Event("calls AddLink")
	rn := el("w:r", el("w:rPr", el("w:rStyle").set("w:val", "a3")))
	if text != "" {
		rn.add(el("w:instrText", tx(xmlClean(text))))
	}
	n.add(el("w:hyperlink", rn).set("r:id", b.mod.link(cleanAttr(url))))
	b.c.Trace("  link %q -> %q", text, url)
	return &h.Run, rn
}

// fill makes a few random calls on a paragraph.
func (b *Builder) fill(p *docx.Paragraph, n *Node) {
	c := b.c
	k := c.Intn(5)
	lots := c.Intn(100) == 0
	if lots {
		k = many(c.Rand)
	}
	for ; k > 0; k-- {
		var r *docx.Run
		var rn *Node
		x := c.Intn(12)
		if lots && k > 1 { // of one kind, or small
			x = []int{1, 7}[c.Intn(2)]
			if k%8 == 0 {
				x = 5
			}
		}
		if b.Heavy && !lots && c.Intn(3) > 0 {
			x = 4 + c.Intn(3)
		}
		switch x {
		case 0:
			b.setPara(p, n)
			continue
		case 1:
			r = p.AddTab()
			rn = el("w:r", el("w:rPr"), el("w:tab"))
			n.add(rn)
			c.Event("calls Paragraph.AddTab")
		case 2:
			r = p.AddPageBreaks()
			rn = el("w:r", el("w:rPr"), el("w:br").set("w:type", "page"))
			n.add(rn)
			c.Event("calls AddPageBreaks")
		case 3, 4:
			if b.NoLink {
				continue
			}
			u := b.value()
			switch c.Intn(6) {
			case 0, 1, 2:
				u = "http://example.org/" + strconv.Itoa(c.Intn(1000)) + "?a=b&c=d"
			case 3: // where something else of the package is
				u = partLike[c.Intn(len(partLike))]
			}
			r, rn = b.addLink(p, n, b.value(), u)
		case 5:
			if b.NoDraw {
				continue
			}
			d, w, h := b.newImage()
			r, rn = b.addPic(p, n, d, w, h)
		case 6:
			if b.NoDraw {
				continue
			}
			r, rn = b.addShape(p, n)
		default:
			s := b.textValue()
			r = p.AddText(s)
			c.Event("calls AddText")
			c.Trace("  text %q", s)
			rn = el("w:r", append([]*Node{el("w:rPr")}, textKids(s)...)...)
			n.add(rn)
		}
		if r == nil {
			continue
		}
		for k := c.Intn(3); k > 0; k-- {
			b.setRun(r, rn)
		}
	}
}

func (b *Builder) colors() (*docx.APITableBorderColors, [6]string) {
	c := b.c
	def := [6]string{"#000000", "#000000", "#000000", "#000000", "#000000", "#000000"}
	if c.Intn(3) == 0 {
		return nil, def
	}
	v := [6]string{}
	for i := range v {
		if c.Intn(3) > 0 {
			v[i] = b.value()
		}
	}
	bc := &docx.APITableBorderColors{Top: v[0], Left: v[1], Bottom: v[2], Right: v[3], InsideH: v[4], InsideV: v[5]}
	for i := range v {
		if v[i] == "" {
			v[i] = def[i]
		}
	}
	return bc, v
}

func tblPrNode(width int64, col [6]string) *Node {
	tw := el("w:tblW")
	if width > 0 {
		tw.set("w:w", i64(width))
	} else {
		tw.set("w:w", "0").set("w:type", "auto")
	}
	tb := el("w:tblBorders")
	for i, s := range []string{"top", "left", "bottom", "right", "insideH", "insideV"} {
		tb.add(el("w:"+s).set("w:val", "single").set("w:sz", "4").set("w:color", cleanAttr(col[i])))
	}
	return el("w:tblPr", tw, tb, el("w:tblLook").set("w:val", "0000").set("w:firstRow", "0").set("w:lastRow", "0").set("w:firstColumn", "0").set("w:lastColumn", "0").set("w:noHBand", "0").set("w:noVBand", "0"))
}

// addTable adds a table to the document.
func (b *Builder) addTable() (*docx.Table, *Node) {
	c := b.c
	bc, col := b.colors()
	width := int64(0)
	if c.Intn(2) == 0 {
		width = int64(c.Intn(12000)) - 1000
	}
	rows, cols := c.Intn(4), c.Intn(4)
	if c.Intn(25) == 0 {
		rows, cols = 10+c.Intn(40), 1+c.Intn(12)
	}
	tn := el("w:tbl", tblPrNode(width, col))
	var t *docx.Table
	if c.Intn(2) == 0 {
		t = b.d.AddTable(rows, cols, width, bc)
		tn.add(el("w:tblGrid"))
		for i := 0; i < rows; i++ {
			tr := el("w:tr", el("w:trPr"))
			for j := 0; j < cols; j++ {
				tr.add(el("w:tc", el("w:tcPr", el("w:tcW").set("w:w", "0").set("w:type", "auto"))))
			}
			tn.add(tr)
		}
		c.Event("calls AddTable")
	} else {
		hs, ws := make([]int64, rows), make([]int64, cols)
		for i := range hs {
			hs[i] = int64(c.Intn(4000)) - 300
		}
		for i := range ws {
			ws[i] = int64(c.Intn(4000)) + 1
		}
		t = b.d.AddTableTwips(hs, ws, width, bc)
		gr := tn.getKid("w:tblGrid")
		for _, w := range ws {
			gr.add(el("w:gridCol").set("w:w", i64(w)))
		}
		for _, h := range hs {
			tr := el("w:tr", el("w:trPr"))
			if h > 0 {
				tr.first("w:trPr").add(el("w:trHeight").set("w:val", i64(h)))
			}
			for _, w := range ws {
				tr.add(el("w:tc", el("w:tcPr", el("w:tcW").set("w:w", i64(w)).set("w:type", "dxa"))))
			}
			tn.add(tr)
		}
		c.Event("calls AddTableTwips")
	}
	c.Trace("table %dx%d", rows, cols)
	b.mod.Items = append(b.mod.Items, tn)
	b.fillTable(t, tn)
	return t, tn
}

func (b *Builder) fillTable(t *docx.Table, tn *Node) {
	c := b.c
	if c.Intn(4) == 0 {
		v := b.value()
		if t.Justification(v) != t {
			c.Violate("chain", "Table.Justification does not return its table")
		}
		tn.getKid("w:tblPr").setKid(el("w:jc").set("w:val", cleanAttr(v)))
		c.Event("calls Table.Justification")
	}
	trs := tn.all("w:tr")
	if len(trs) != len(t.TableRows) {
		c.Violate("table-rows", "the table has %d rows, want %d", len(t.TableRows), len(trs))
		return
	}
	p := 0.5
	if len(trs) > 8 {
		p = 0.05
	}
	for i, r := range t.TableRows {
		if c.Intn(6) == 0 {
			v := b.value()
			if r.Justification(v) != r {
				c.Violate("chain", "WTableRow.Justification does not return its row")
			}
			trs[i].getKid("w:trPr").setKid(el("w:jc").set("w:val", cleanAttr(v)))
			c.Event("calls WTableRow.Justification")
		}
		tcs := trs[i].all("w:tc")
		if len(tcs) != len(r.TableCells) {
			c.Violate("table-cells", "row %d has %d cells, want %d", i, len(r.TableCells), len(tcs))
			return
		}
		for j, cell := range r.TableCells {
			if c.Intn(8) == 0 {
				v, w, x := b.value(), b.value(), b.value()
				if cell.Shade(v, w, x) != cell {
					c.Violate("chain", "WTableCell.Shade does not return its cell")
				}
				tcs[j].getKid("w:tcPr").setKid(optAttr(optAttr(optAttr(el("w:shd"), "w:val", v), "w:color", w), "w:fill", x))
				c.Event("calls WTableCell.Shade")
			}
			for c.Chance(p) {
				cp := cell.AddParagraph()
				pn := el("w:p")
				tcs[j].add(pn)
				c.Event("calls WTableCell.AddParagraph")
				b.fill(cp, pn)
			}
		}
	}
}

// addPara adds a paragraph to the document.
func (b *Builder) addPara() (*docx.Paragraph, *Node) {
	p := b.d.AddParagraph()
	n := el("w:p")
	b.mod.Items = append(b.mod.Items, n)
	b.c.Event("calls AddParagraph")
	b.c.Trace("paragraph %d", len(b.mod.Items)-1)
	return p, n
}

func sectNode(w, h string) *Node { return el("w:sectPr", el("w:pgSz").set("w:w", w).set("w:h", h)) }

// step makes one random document-level call.
func (b *Builder) step() {
	switch b.c.Intn(10) {
	case 0, 1:
		b.addTable()
	case 2:
		if b.c.Intn(4) > 0 {
			b.addPara()
			return
		}
		if b.c.Intn(2) == 0 {
			b.d.WithA4Page()
			b.mod.Items = append(b.mod.Items, sectNode("11906", "16838"))
		} else {
			b.d.WithA3Page()
			b.mod.Items = append(b.mod.Items, sectNode("16838", "23811"))
		}
		b.c.Event("calls WithPage")
	default:
		b.fill(b.addPara())
	}
}

// newBuilder starts an empty document with the default theme.
func (c *Ctx) newBuilder() *Builder {
	return &Builder{c: c, d: docx.New().WithDefaultTheme(), mod: newMod(), imgTypes: imageFormats}
}

// build makes a document of n calls.
func (c *Ctx) build(n int, setup func(*Builder)) *Builder {
	b := c.newBuilder()
	if setup != nil {
		setup(b)
	}
	for i := 0; i < n; i++ {
		b.step()
	}
	return b
}
