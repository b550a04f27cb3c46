package main

import (
	"archive/zip"
	"bytes"
	"errors"
	"fmt"
	"reflect"
	"regexp"
	"runtime"
	"sort"
	"strings"

	docx "github.com/fumiama/go-docx"
)

func init() {
	register(&Prop{ID: "C01", Quick: 24000, Deep: 1500000, Run: runC01, CaseCPU: 30,
		Rule: "packages damaged at every level (bytes of the zip; hostile entry names, sizes, methods and duplicates; bytes of the XML parts; elements removed, moved, repeated, renamed, re-parented; attributes removed, repeated, exchanged, with hostile values; relationships and media that clash, dangle or are nonsense) and exported structures with any part missing; opening must return and, if it succeeds, every operation of the library is applied and must return, and what is saved must be a sound package that opens again; non-trivial: damaged input that was opened",
		Need: map[string]int{"inputs rejected": 3000, "inputs opened": 8000, "operations": 150000, "saves": 8000, "re-opened": 8000, "structures exercised": 1500}})
}

var hostileValues = []string{"", " ", "-1", "0", "1", "true", "off", "99999999999999999999", "-9223372036854775808", "9223372036854775807", "1e400", "NaN", "0x7f", "1.5", "rId1", "rId0", "rId", "rId99999999999999999999",
	"rId-1", "../../x", "media/", "media/image1.png", "/word/media/image1.png", "http://", "%00", "<>&\"'", "\u202e", "a:b", "xmlns", "wps", "wpc", "wpg", "preserve", strings.Repeat("9", 400), strings.Repeat("x", 5000)}

var allTags = func() (ts []string) {
	seen := map[string]bool{}
	for t := range vocabKids {
		seen[t] = true
	}
	for _, ks := range vocabKids {
		for _, k := range strings.Fields(ks) {
			seen[strings.TrimRight(k, "!")] = true
		}
	}
	for _, t := range []string{"w:p", "w:r", "w:t", "w:tab", "w:br", "w:drawing", "w:hyperlink", "w:tbl", "w:tr", "w:tc", "w:tblGrid", "w:gridCol", "w:body", "w:document", "w:sectPr", "w:txbxContent", "w:instrText", "w:tabs",
		"wp:inline", "wp:anchor", "wp:extent", "wp:docPr", "wp:positionH", "wp:posOffset", "a:graphic", "a:graphicData", "pic:pic", "wps:wsp", "wps:txbx", "wpc:wpc", "wpg:wgp", "wpg:grpSp", "mc:AlternateContent", "mc:Choice", "mc:Fallback", "w:unknown"} {
		seen[t] = true
	}
	for t := range seen {
		ts = append(ts, t)
	}
	sort.Strings(ts)
	return
}()

// twist makes one change to a tree.
func (c *Ctx) twist(root *Node) string {
	var nodes, parents []*Node
	var collect func(n *Node)
	collect = func(n *Node) {
		for _, k := range n.Kids {
			if k.Tag != "" {
				nodes = append(nodes, k)
				parents = append(parents, n)
				collect(k)
			}
		}
	}
	collect(root)
	if len(nodes) == 0 {
		return "nothing"
	}
	i := c.Intn(len(nodes))
	n, p := nodes[i], parents[i]
	at := 0
	for j, k := range p.Kids {
		if k == n {
			at = j
		}
	}
	switch c.Intn(15) {
	case 14: // within itself, many times over
		ch := [][]string{
			{"w:p", "w:r", "w:drawing", "wp:inline", "a:graphic", "a:graphicData", "wps:wsp", "wps:txbx", "w:txbxContent"},
			{"w:p", "w:r", "w:drawing", "wp:anchor", "a:graphic", "a:graphicData", "wpc:wpc", "wps:wsp", "wps:txbx", "w:txbxContent"},
			{"w:p", "w:r", "mc:AlternateContent", "mc:Choice", "w:drawing", "wp:inline", "a:graphic", "a:graphicData", "wps:wsp", "wps:txbx", "w:txbxContent"},
			{"w:tbl", "w:tr", "w:tc"}, {"w:hyperlink"}, {"wpg:grpSp"}, {"wpg:wgp"}, {"mc:AlternateContent", "mc:Fallback"}, {n.Tag}, {"w:unknown"},
		}[c.Intn(10)]
		d := 1 + c.Intn(50)
		in := n
		for i := 0; i < d; i++ {
			for j := len(ch) - 1; j >= 0; j-- {
				in = el(ch[j], in)
			}
		}
		p.Kids[at] = in
		return fmt.Sprintf("%d times %s around %s", d, ch[0], n.Tag)
	case 0:
		p.cut(at)
		return "remove " + n.Tag
	case 1: // the children take its place
		ks := append([]*Node(nil), p.Kids[:at]...)
		ks = append(ks, n.Kids...)
		p.Kids = append(ks, p.Kids[at+1:]...)
		return "unwrap " + n.Tag
	case 2:
		n.Tag = allTags[c.Intn(len(allTags))]
		return "rename to " + n.Tag
	case 3:
		w := el(allTags[c.Intn(len(allTags))], n)
		p.Kids[at] = w
		return "wrap in " + w.Tag
	case 4:
		for k := 1 + c.Intn(3); k > 0; k-- {
			p.insert(c.Intn(len(p.Kids)+1), n.clone())
		}
		return "repeat " + n.Tag
	case 5: // somewhere else
		j := c.Intn(len(nodes))
		nodes[j].insert(c.Intn(len(nodes[j].Kids)+1), n.clone())
		return "copy " + n.Tag + " into " + nodes[j].Tag
	case 6:
		n.Kids = nil
		return "empty " + n.Tag
	case 7:
		n.Attrs = nil
		return "no attributes on " + n.Tag
	case 8, 9, 10:
		if len(n.Attrs) == 0 {
			n.set(c.anyAttr(), hostileValues[c.Intn(len(hostileValues))])
			return "attribute on " + n.Tag
		}
		a := &n.Attrs[c.Intn(len(n.Attrs))]
		a.Val = hostileValues[c.Intn(len(hostileValues))]
		return "value of " + n.Tag + " " + a.Key
	case 11:
		if len(n.Attrs) > 0 {
			k := c.Intn(len(n.Attrs))
			n.Attrs = append(n.Attrs[:k:k], n.Attrs[k+1:]...)
		}
		return "one attribute less on " + n.Tag
	case 12:
		n.add(tx([]string{"text", " ", "]]>", "\x85", strings.Repeat("long ", 2000)}[c.Intn(5)]))
		return "text in " + n.Tag
	}
	n.insert(c.Intn(len(n.Kids)+1), el(allTags[c.Intn(len(allTags))]))
	return "element in " + n.Tag
}

func (c *Ctx) anyAttr() string {
	return []string{"w:val", "r:id", "r:embed", "w:anchor", "id", "name", "w:w", "uri", "Requires", "xml:space", "w:type", "cx", "x"}[c.Intn(13)]
}

// scratch changes a few bytes.
func (c *Ctx) scratch(b []byte) []byte {
	b = append([]byte(nil), b...)
	for k := 1 + c.Intn(4); k > 0 && len(b) > 0; k-- {
		i := c.Intn(len(b))
		switch c.Intn(6) {
		case 0:
			b[i] ^= 1 << uint(c.Intn(8))
		case 1:
			b[i] = byte(c.Intn(256))
		case 2:
			b = append(b[:i:i], b[i+1:]...)
		case 3:
			j := i + c.Intn(len(b)-i)
			b = append(b[:i:i], b[j:]...)
		case 4:
			j := i + c.Intn(len(b)-i)
			if j > i+2000 {
				j = i + 2000
			}
			b = append(b[:j:j], b[i:]...)
		case 5:
			s := []string{"<", ">", "&", "]]>", "<!--", "<![CDATA[", "<?", "&#0;", "&#xFFFF;", "&lt;", "\x00", "\xff", "<w:p>", "</w:p>", "<w:r/>", "xmlns=\"\"", "<!DOCTYPE a>", "PK\x03\x04", "PK\x05\x06"}[c.Intn(19)]
			b = append(b[:i:i], append([]byte(s), b[i:]...)...)
		}
	}
	return b
}

// hostileZip writes a zip with odd entries.
func (c *Ctx) hostileZip(p *Pkg) []byte {
	var buf bytes.Buffer
	zw := zip.NewWriter(&buf)
	odd := []string{"", "/", "//", "..", "../../etc/x", "/abs", "C:\\x", "word/media/", "word/media/../document.xml", "word/media/a/b", "word//document.xml", "WORD/DOCUMENT.XML", "word/document.xml/", "word/_rels/document.xml.rels/", "\xff\xfe", strings.Repeat("n", 3000), "word/media/image1.png"}
	put := func(name string, data []byte) {
		h := &zip.FileHeader{Name: name, Method: uint16([]int{0, 8, 8, 8}[c.Intn(4)])}
		switch c.Intn(30) {
		case 0: // sizes that are not so
			h.Method = zip.Store
			h.CRC32 = c.Uint32()
			h.CompressedSize64 = uint64(len(data))
			h.UncompressedSize64 = []uint64{0, 1, 1 << 20, 1 << 32, 1 << 62, 1<<64 - 1}[c.Intn(6)]
			if w, err := zw.CreateRaw(h); err == nil {
				_, _ = w.Write(data)
			}
			return
		case 1: // an unknown method
			h.Method = uint16(1 + c.Intn(99))
			h.CompressedSize64, h.UncompressedSize64 = uint64(len(data)), uint64(len(data))
			if w, err := zw.CreateRaw(h); err == nil {
				_, _ = w.Write(data)
			}
			return
		}
		w, err := zw.CreateHeader(h)
		if err == nil && !strings.HasSuffix(name, "/") {
			_, _ = w.Write(data)
		}
	}
	for _, x := range p.Parts {
		switch c.Intn(25) {
		case 0:
			continue
		case 1:
			put(x.Name, x.Data)
			put(x.Name, x.Data[:c.Intn(len(x.Data)+1)])
			continue
		case 2:
			put(odd[c.Intn(len(odd))], x.Data)
			continue
		}
		put(x.Name, x.Data)
	}
	for k := c.Intn(3); k > 0; k-- {
		put(odd[c.Intn(len(odd))], []byte("odd"))
	}
	_ = zw.Close()
	return buf.Bytes()
}

// hostileRels damages a list of relationships.
func (c *Ctx) hostileRels(rs []Rel) []Rel {
	rs = append([]Rel(nil), rs...)
	for k := 1 + c.Intn(4); k > 0; k-- {
		h := hostileValues[c.Intn(len(hostileValues))]
		if len(rs) == 0 || c.Intn(5) == 0 {
			rs = append(rs, Rel{h, []string{relImage, relLink, relBase + "styles", h}[c.Intn(4)], hostileValues[c.Intn(len(hostileValues))], []string{"", "External", "x"}[c.Intn(3)]})
			continue
		}
		i := c.Intn(len(rs))
		switch c.Intn(6) {
		case 0:
			rs[i].ID = h
		case 1:
			rs[i].Target = h
		case 2:
			rs[i].Type = []string{relImage, relLink, relBase + "styles", h}[c.Intn(4)]
		case 3:
			rs = append(rs[:i:i], rs[i+1:]...)
		case 4:
			rs = append(rs, rs[i])
		case 5:
			rs[i].ID = rs[c.Intn(len(rs))].ID
		}
	}
	return rs
}

func runC01(c *Ctx) {
	if c.Intn(10) == 0 {
		c.structures()
		return
	}
	kind := c.Intn(8)
	w := newWorld(c.Rand, WorldOpt{Items: c.Intn(4), Images: c.Intn(3), Links: c.Intn(3), OddIDs: c.Chance(0.3), Types: imageFormats,
		Extra: c.Chance(0.1), DirEntry: c.Chance(0.1), Setup: func(g *Gen) { g.MultiRun = c.Chance(0.2) }})
	what := ""
	var in []byte
	doc, _ := w.Pkg.get(docPart)
	switch kind {
	case 0:
		in = c.scratch(w.bytes(c.Rand))
		what = "bytes of the package"
	case 1:
		in = c.hostileZip(w.Pkg)
		what = "entries of the package"
	case 2:
		for i := 1 + c.Intn(2); i > 0; i-- {
			doc = c.scratch(doc)
		}
		w.Pkg.replace(docPart, doc)
		in = w.bytes(c.Rand)
		what = "bytes of the document"
	case 3:
		rx, _ := w.Pkg.get(relsPart)
		switch c.Intn(4) {
		case 0:
			rx = c.scratch(rx)
		case 1: // media with odd names
			rs := append([]Rel(nil), w.Rels...)
			for i, x := range rs {
				if x.Type != relImage || c.Intn(3) == 0 {
					continue
				}
				n := []string{"image", "a.", ".png", "..", "x/y.z/w", "图", "a.b.c", "image1.", "%2e", " ", "no extension", "image" + strings.Repeat("9", 30) + ".png"}[c.Intn(12)]
				for j := range w.Pkg.Parts {
					if w.Pkg.Parts[j].Name == "word/"+x.Target {
						w.Pkg.Parts[j].Name = "word/media/" + n
					}
				}
				rs[i].Target = "media/" + n
			}
			rx = relsXML(rs, plainStyle())
			c.Event("media with odd names")
		default:
			rx = relsXML(c.hostileRels(w.Rels), plainStyle())
		}
		w.Pkg.replace(relsPart, rx)
		in = w.bytes(c.Rand)
		what = "relationships"
	default:
		for k := 1 + c.Intn(5); k > 0; k-- {
			what += c.twist(w.Doc) + "; "
		}
		st := plainStyle()
		w.Pkg.replace(docPart, []byte(st.render(w.Doc)))
		in = w.bytes(c.Rand)
	}
	c.Trace("damage: %s", what)
	var d *docx.Docx
	var err error
	if !c.guard("panic:Parse", "opening", func() { d, err = docx.Parse(bytes.NewReader(in), int64(len(in))) }) {
		c.Trace("document: %q", short(string(doc)))
		return
	}
	if err != nil {
		c.Event("inputs rejected")
		if d != nil && c.Intn(2) == 0 {
			// what is returned beside an error may be anything, but is not used
			c.Event("rejected with a value")
		}
		if err.Error() == "" {
			c.Violate("empty-error", "opening fails without saying why")
		}
		return
	}
	if d == nil {
		c.Violate("nil", "opening gives neither a document nor an error")
		return
	}
	c.Event("inputs opened")
	c.Distinct(what + hash(in))
	c.Sample(what)
	if kind == 1 { // without a document there is nothing to work with
		x, err := readPkg(in)
		if err != nil {
			return
		}
		if _, ok := x.get(docPart); !ok {
			return
		}
	}
	if kind == 3 && c.Intn(2) == 0 {
		t := docx.New().WithDefaultTheme()
		c.guard("panic:AppendFile", "appending it to a new document", func() { t.AppendFile(d) })
		c.guard("panic:WriteTo", "saving what it was appended to", func() { _, _ = save(t) })
	}
	c.exercise(d, kind >= 4 || kind == 2)
}

// exercise applies every operation to a document.
func (c *Ctx) exercise(d *docx.Docx, judge bool) {
	var m0, m1 runtime.MemStats
	big := c.Intn(50) == 0
	if big {
		runtime.ReadMemStats(&m0)
	}
	op := func(name string, f func()) bool {
		c.Event("operations")
		return c.guard("panic:"+name, name, f)
	}
	var paras []*docx.Paragraph
	var tables []*docx.Table
	find := func() {
		paras, tables = nil, nil
		var walk func(v reflect.Value, depth int)
		walk = func(v reflect.Value, depth int) {
			if depth > 300 {
				return
			}
			switch v.Kind() {
			case reflect.Ptr, reflect.Interface:
				if v.IsNil() {
					return
				}
				switch o := v.Interface().(type) {
				case *docx.Paragraph:
					paras = append(paras, o)
				case *docx.Table:
					tables = append(tables, o)
				}
				walk(v.Elem(), depth+1)
			case reflect.Slice:
				for i := 0; i < v.Len(); i++ {
					if e := v.Index(i); e.Kind() == reflect.Struct && e.CanAddr() {
						walk(e.Addr(), depth+1)
					} else {
						walk(e, depth+1)
					}
				}
			case reflect.Struct:
				for i := 0; i < v.NumField(); i++ {
					if v.Type().Field(i).PkgPath == "" {
						walk(v.Field(i), depth+1)
					}
				}
			}
		}
		walk(reflect.ValueOf(d.Document.Body.Items), 0)
	}
	find()
	texts := func() {
		for _, p := range paras {
			op("Paragraph.String", func() { _ = p.String() })
		}
		for _, t := range tables {
			op("Table.String", func() { _ = t.String() })
		}
	}
	saveIt := func(what string) []byte {
		var b []byte
		var err error
		if !op("WriteTo "+what, func() { b, err = save(d) }) {
			return nil
		}
		c.Event("saves")
		if err != nil {
			if judge {
				c.Violate("save:"+errSig(err), "saving (%s) fails: %v", what, err)
			}
			return nil
		}
		return b
	}
	reopen := func(b []byte, what string) *docx.Docx {
		if b == nil || !judge {
			return nil
		}
		if _, err := docOf(b); err != nil {
			c.Violate("malformed", "saved (%s): %v", what, err)
			return nil
		}
		var x *docx.Docx
		var err error
		if !op("Parse of a saved document", func() { x, err = open(b) }) {
			return nil
		}
		c.Event("re-opened")
		if err != nil {
			c.Violate("reopen:"+errSig(err), "what was saved (%s) cannot be opened: %v", what, err)
			return nil
		}
		return x
	}
	texts()
	b := saveIt("opened")
	if c.Failed() {
		return
	}
	reopen(b, "opened")
	op("look-ups", func() {
		_ = d.RangeRelationships(func(r *docx.Relationship) error {
			_, _ = d.ReferTarget(r.ID)
			_, _ = d.ReferID(r.Target)
			_ = d.Media(r.Target)
			if len(r.Target) >= 6 {
				_ = d.Media(r.Target[6:])
			}
			if strings.HasPrefix(r.ID, "x") {
				return errors.New("x")
			}
			return nil
		})
	})
	for _, p := range paras {
		for _, rule := range []docx.RunMergeRule{docx.MergeAllRuns, docx.MergeSamePropRuns, docx.MergeSamePropRunsOf("Bold", "Color", "Fonts")} {
			op("MergeText", func() { np := p.MergeText(rule); _ = np.String() })
		}
	}
	var pieces []*docx.Docx
	op("SplitByParagraph", func() { pieces = d.SplitByParagraph(func(*docx.Paragraph) bool { return c.Intn(2) == 0 }) })
	for _, x := range pieces {
		op("WriteTo piece", func() {
			if b, err := save(x); err == nil {
				reopen(b, "piece")
			} else if judge {
				c.Violate("save:"+errSig(err), "saving a piece fails: %v", err)
			}
		})
	}
	op("SplitByParagraph regex", func() { _ = d.SplitByParagraph(docx.SplitDocxByPlainTextRegex(regexp.MustCompile("[a-z]"))) })
	o := docx.New().WithDefaultTheme()
	o.AddParagraph().AddLink("x", "http://x/")
	op("AppendFile from it", func() { o.AppendFile(d) })
	op("WriteTo target", func() {
		b, err := save(o)
		if err != nil && judge {
			c.Violate("save:"+errSig(err), "saving the target of an append fails: %v", err)
			return
		}
		if err == nil {
			reopen(b, "target")
		}
	})
	op("AppendFile to it", func() { d.AppendFile(o) })
	if len(d.Document.Body.Items) < 30 {
		op("AppendFile to itself", func() { d.AppendFile(d) })
	}
	find()
	texts()
	kinds := append([]string{"", "x"}, dropKinds...)
	switch c.Intn(3) {
	case 0:
		op("DropDrawingOf", func() { d.Document.Body.DropDrawingOf(kinds[c.Intn(len(kinds))]) })
	case 1:
		for _, p := range paras {
			op("Drop", func() { callDrop(p, dropKinds[c.Intn(len(dropKinds))]) })
		}
	}
	img := makeImage(c.Rand, imageFormats[c.Intn(len(imageFormats))], 3, 4)
	n := 0
	for _, p := range paras {
		if n++; n > 8 {
			break
		}
		op("Add", func() {
			r := p.AddText("a\tb\nc")
			r.Bold().Italic().Color("1").Size("2").SizeCs("3").Shade("a", "b", "c").Spacing(1).Underline("x").Highlight("y").Strike(true).Font("a", "b", "c", "d").AddTab()
			p.AddTab()
			p.AddPageBreaks()
			p.Justification("center").Style("a").NumPr("1", "2").NumFont("a", "b", "c", "d").NumSize("7")
		})
	}
	for _, t := range tables {
		op("Table setters", func() {
			t.Justification("x")
			for _, r := range t.TableRows {
				r.Justification("y")
				for _, tc := range r.TableCells {
					tc.Shade("a", "b", "c").AddParagraph().AddText("t")
				}
			}
		})
	}
	op("Add to the document", func() {
		p := d.AddParagraph()
		p.AddLink("l", "http://l/")
		_, _ = p.AddInlineDrawing(img)
		_, _ = p.AddAnchorDrawing(img)
		p.AddInlineShape(1, 2, "n", "auto", "rect", nil)
		p.AddAnchorShape(1, 2, "n", "auto", "rect", &docx.ALine{W: 1})
		d.AddTable(2, 2, 0, nil)
		d.WithA4Page()
	})
	var ks []string
	for _, k := range []string{"*docx.Paragraph", "*docx.Table", "*docx.SectPr", "*docx.Run", "*docx.Hyperlink", "*docx.Text", "*docx.Drawing", "nothing"} {
		if c.Intn(2) == 0 {
			ks = append(ks, k)
		}
	}
	if c.Intn(2) == 0 {
		for _, p := range paras {
			op("Paragraph.KeepElements", func() { p.KeepElements(ks...) })
			for _, x := range p.Children {
				if r, ok := x.(*docx.Run); ok {
					op("Run.KeepElements", func() { r.KeepElements(ks...) })
				}
			}
		}
		op("Body.KeepElements", func() { d.Document.Body.KeepElements(ks...) })
	}
	find()
	texts()
	reopen(saveIt("worked on"), "worked on")
	if big {
		runtime.ReadMemStats(&m1)
		if x := int64(m1.HeapSys) - int64(m0.HeapSys); x > 2<<30 {
			c.Violate("memory", "working on one document takes %d MB more", x>>20)
		}
	}
}

func errSig(err error) string {
	s := regexp.MustCompile(`[0-9"].*`).ReplaceAllString(err.Error(), "")
	if len(s) > 40 {
		s = s[:40]
	}
	return strings.TrimSpace(s)
}

// structures exercises documents made by hand with parts missing anywhere.
func (c *Ctx) structures() {
	d := docx.New().WithDefaultTheme()
	f := &Filler{c: c, left: 20 + c.Intn(80), paths: map[string]bool{}, Embeds: []string{"rId1", "rId2", "rId77"}, Links: []string{"rId1", "rId9"}, sparse: true}
	for n := 1 + c.Intn(3); n > 0; n-- {
		var x interface{} = &docx.Paragraph{}
		switch c.Intn(4) {
		case 0:
			x = &docx.Table{}
		case 1:
			x = d.AddParagraph()
		}
		f.fill(reflect.ValueOf(x).Elem(), reflect.TypeOf(x).Elem().Name(), 0)
		d.Document.Body.Items = append(d.Document.Body.Items, x)
	}
	c.Event("structures exercised")
	c.Distinct(dump(d.Document.Body.Items))
	// elements made by hand belong to no document: they are saved, and what
	// is opened again is worked with
	var b []byte
	var err error
	if !c.guard("panic:WriteTo", "saving structures", func() { b, err = save(d) }) {
		return
	}
	if err != nil {
		c.Violate("save:"+errSig(err), "saving structures fails: %v", err)
		return
	}
	if _, err := docOf(b); err != nil {
		c.Violate("malformed", "saved structures: %v", err)
		return
	}
	var x *docx.Docx
	if !c.guard("panic:Parse", "opening structures", func() { x, err = open(b) }) {
		return
	}
	if err != nil {
		c.Violate("reopen:"+errSig(err), "saved structures cannot be opened: %v", err)
		return
	}
	c.exercise(x, true)
}
