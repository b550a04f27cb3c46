package main

import (
	"archive/zip"
	"bytes"
	"fmt"
	"hash/crc32"
	"io"
	"math/rand"
	"path"
	"sort"
	"strconv"
	"strings"

	docx "github.com/fumiama/go-docx"
)

const (
	docPart  = "word/document.xml"
	relsPart = "word/_rels/document.xml.rels"
	ctPart   = "[Content_Types].xml"

	relImage = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/image"
	relLink  = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/hyperlink"
	relBase  = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/"
)

// Part is one entry of a package.
type Part struct {
	Name string
	Data []byte
}

// Pkg is an ordered list of parts.
type Pkg struct{ Parts []Part }

func (p *Pkg) put(name string, data []byte) { p.Parts = append(p.Parts, Part{name, data}) }

func (p *Pkg) get(name string) ([]byte, bool) {
	for _, x := range p.Parts {
		if x.Name == name {
			return x.Data, true
		}
	}
	return nil, false
}

func (p *Pkg) replace(name string, data []byte) {
	for i := range p.Parts {
		if p.Parts[i].Name == name {
			p.Parts[i].Data = data
			return
		}
	}
	p.put(name, data)
}

func (p *Pkg) names() []string {
	var r []string
	for _, x := range p.Parts {
		r = append(r, x.Name)
	}
	return r
}

// zipBytes writes the package; r (may be nil) varies compression, order,
// data descriptors.
func (p *Pkg) zipBytes(r *rand.Rand) []byte {
	parts := append([]Part(nil), p.Parts...)
	if r != nil && r.Intn(2) == 0 {
		r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	}
	var buf bytes.Buffer
	zw := zip.NewWriter(&buf)
	for _, x := range parts {
		h := &zip.FileHeader{Name: x.Name, Method: zip.Deflate}
		if r != nil && r.Intn(3) == 0 {
			h.Method = zip.Store
		}
		if r != nil && h.Method == zip.Store && r.Intn(2) == 0 { // sizes in the local header, no data descriptor
			h.CRC32 = crc32.ChecksumIEEE(x.Data)
			h.CompressedSize64 = uint64(len(x.Data))
			h.UncompressedSize64 = uint64(len(x.Data))
			w, err := zw.CreateRaw(h)
			if err != nil {
				panic(err)
			}
			_, _ = w.Write(x.Data)
			continue
		}
		if strings.HasSuffix(x.Name, "/") {
			h.Method = zip.Store
		}
		w, err := zw.CreateHeader(h)
		if err != nil {
			panic(err)
		}
		if !strings.HasSuffix(x.Name, "/") {
			_, _ = w.Write(x.Data)
		}
	}
	if r != nil && r.Intn(4) == 0 {
		_ = zw.SetComment("a comment")
	}
	if err := zw.Close(); err != nil {
		panic(err)
	}
	return buf.Bytes()
}

// readPkg reads every entry in full (checksums verified); duplicates are an error.
func readPkg(data []byte) (*Pkg, error) {
	zr, err := zip.NewReader(bytes.NewReader(data), int64(len(data)))
	if err != nil {
		return nil, err
	}
	p := &Pkg{}
	seen := map[string]bool{}
	for _, f := range zr.File {
		if seen[f.Name] {
			return nil, fmt.Errorf("duplicate entry %q", f.Name)
		}
		seen[f.Name] = true
		rc, err := f.Open()
		if err != nil {
			return nil, fmt.Errorf("entry %q: %w", f.Name, err)
		}
		b, err := io.ReadAll(rc)
		_ = rc.Close()
		if err != nil {
			return nil, fmt.Errorf("entry %q: %w", f.Name, err)
		}
		p.put(f.Name, b)
	}
	return p, nil
}

// Rel is a relationship as read from a relationships part.
type Rel struct{ ID, Type, Target, Mode string }

func parseRels(data []byte) ([]Rel, error) {
	root, err := parseStrict(data)
	if err != nil {
		return nil, err
	}
	if root.Tag != "rel:Relationships" {
		return nil, fmt.Errorf("root element is %s", root.Tag)
	}
	var rs []Rel
	for _, k := range root.Kids {
		if k.Tag == "" {
			continue
		}
		if k.Tag != "rel:Relationship" {
			return nil, fmt.Errorf("unexpected element %s", k.Tag)
		}
		rs = append(rs, Rel{k.get("Id"), k.get("Type"), k.get("Target"), k.get("TargetMode")})
	}
	return rs, nil
}

func relsXML(rs []Rel, st *Style) []byte {
	root := el("rel:Relationships")
	for _, r := range rs {
		k := el("rel:Relationship").set("Id", r.ID).set("Type", r.Type).set("Target", r.Target)
		if r.Mode != "" {
			k.set("TargetMode", r.Mode)
		}
		root.add(k)
	}
	s := *st
	s.Unknown, s.UnkAttr, s.LocalNS = 0, 0, false
	s.Prefixes = map[string]string{"rel": ""}
	var sb strings.Builder
	sb.WriteString(xmlDecl)
	s.write(&sb, root, `xmlns="`+nsREL+`"`)
	return []byte(sb.String())
}

// resolveTarget turns a relationship target of the main document into a part name.
func resolveTarget(t string) string {
	if strings.HasPrefix(t, "/") {
		return strings.TrimPrefix(path.Clean(t), "/")
	}
	return strings.TrimPrefix(path.Clean("/word/"+t), "/")
}

// Sound is what the package monitor extracted from a saved package.
type Sound struct {
	Pkg  *Pkg
	Doc  *Node
	Rels []Rel
	ByID map[string]Rel
}

func (s *Sound) body() *Node { return s.Doc.first("w:body") }

// SoundOpt tunes the package monitor.
type SoundOpt struct {
	AllowDangling map[string]bool // relationship ids known not to resolve in the input
	AllowMissing  map[string]bool // targets known to be absent from the input
	NoTypes       bool            // the input's content types are not ours to judge
}

// checkPackage is the package soundness monitor. It returns nil after
// reporting when the package cannot even be read.
func (c *Ctx) checkPackage(data []byte, o SoundOpt) *Sound {
	c.Event("packages checked")
	pk, err := readPkg(data)
	if err != nil {
		c.Violate("bad-zip", "saved package is not a sound zip: %v", err)
		return nil
	}
	s := &Sound{Pkg: pk, ByID: map[string]Rel{}}
	for _, x := range pk.Parts {
		if strings.HasSuffix(x.Name, "/") || strings.HasPrefix(x.Name, "/") || x.Name == "" || strings.Contains(x.Name, "\\") {
			c.Violate("bad-entry-name", "saved package has entry %q", x.Name)
		}
	}
	dx, ok := pk.get(docPart)
	if !ok {
		c.Violate("no-document", "saved package has no %s", docPart)
		return nil
	}
	s.Doc, err = parseStrict(dx)
	if err != nil {
		c.ViolateD("document-malformed", short(string(dx)), "saved %s: %v", docPart, err)
		return nil
	}
	if s.Doc.Tag != "w:document" || s.Doc.first("w:body") == nil {
		c.Violate("document-root", "saved document root is %s", s.Doc.Tag)
		return nil
	}
	rx, ok := pk.get(relsPart)
	if !ok {
		c.Violate("no-rels", "saved package has no %s", relsPart)
		return nil
	}
	s.Rels, err = parseRels(rx)
	if err != nil {
		c.ViolateD("rels-malformed", short(string(rx)), "saved %s: %v", relsPart, err)
		return nil
	}
	for _, r := range s.Rels {
		if r.ID == "" {
			c.Violate("rel-no-id", "relationship without Id: %+v", r)
		}
		if q, dup := s.ByID[r.ID]; dup {
			c.Violate("rel-dup-id", "relationship id %s is used twice: %+v and %+v", r.ID, q, r)
		}
		s.ByID[r.ID] = r
		if r.Mode != "External" {
			if t := resolveTarget(r.Target); !o.AllowMissing[r.Target] && !(r.Type == relLink && local(r.Target)) {
				if _, ok := pk.get(t); !ok {
					c.Violate("rel-target-missing", "relationship %s (%s) points to %q which is not in the package", r.ID, path.Base(r.Type), t)
				}
			}
		}
		if r.Type == relLink && r.Mode != "External" && !local(r.Target) {
			c.Violate("link-mode", "hyperlink relationship %s to %q is not External", r.ID, r.Target)
		}
	}
	s.Doc.walk(func(n *Node) {
		for _, a := range n.Attrs {
			if !strings.HasPrefix(a.Key, "r:") {
				continue
			}
			c.Event("references resolved")
			r, ok := s.ByID[a.Val]
			if !ok {
				if !o.AllowDangling[a.Val] {
					c.Violate("dangling:"+n.Tag, "<%s %s=%q> refers to no relationship", n.Tag, a.Key, a.Val)
				}
				continue
			}
			want := ""
			switch n.Tag {
			case "a:blip":
				want = relImage
			case "w:hyperlink":
				want = relLink
			}
			if want != "" && r.Type != want && !o.AllowDangling[a.Val] {
				c.Violate("ref-type", "<%s %s=%q> refers to a relationship of type %s", n.Tag, a.Key, a.Val, r.Type)
			}
		}
	})
	if !o.NoTypes {
		c.checkTypes(s)
	}
	return s
}

// checkTypes: every part has a content type.
func (c *Ctx) checkTypes(s *Sound) {
	ct, ok := s.Pkg.get(ctPart)
	if !ok {
		c.Violate("no-content-types", "saved package has no %s", ctPart)
		return
	}
	root, err := parseStrict(ct)
	if err != nil {
		c.Violate("content-types-malformed", "%s: %v", ctPart, err)
		return
	}
	def, ovr := map[string]string{}, map[string]string{}
	for _, k := range root.Kids {
		switch k.Tag {
		case "ct:Default":
			def[strings.ToLower(k.get("Extension"))] = k.get("ContentType")
		case "ct:Override":
			ovr[strings.ToLower(k.get("PartName"))] = k.get("ContentType")
		}
	}
	pics := map[string]bool{}
	for _, r := range s.Rels {
		if r.Type == relImage && r.Mode != "External" {
			pics[resolveTarget(r.Target)] = true
		}
	}
	for _, x := range s.Pkg.Parts {
		if x.Name == ctPart || strings.HasSuffix(x.Name, "/") {
			continue
		}
		ty := ovr["/"+strings.ToLower(x.Name)]
		if pics[x.Name] && ty == "" {
			ty = def[strings.ToLower(strings.TrimPrefix(path.Ext(x.Name), "."))]
			if ty != "" && !strings.HasPrefix(ty, "image/") {
				c.Violate("picture-type", "the picture %q has the content type %q", x.Name, ty)
			}
		}
		if ty != "" {
			continue
		}
		e := strings.ToLower(strings.TrimPrefix(path.Ext(x.Name), "."))
		if def[e] == "" {
			c.Violate("no-content-type:"+e, "part %q (extension %q) has no content type in %s", x.Name, e, ctPart)
		}
	}
	for _, r := range s.Rels { // the type of the relationship is that of the part
		if r.Mode == "External" {
			continue
		}
		ty, std := strings.CutSuffix(ovr["/"+strings.ToLower(resolveTarget(r.Target))], "+xml")
		if !std || !strings.HasPrefix(ty, "application/vnd.openxmlformats-officedocument.") || r.Type == relLink {
			continue
		}
		c.Event("relationship types compared")
		if kind := ty[strings.LastIndexByte(ty, '.')+1:]; path.Base(r.Type) != kind {
			c.Violate("rel-type", "relationship %s of type %s leads to %q, of which the content type is %s+xml", r.ID, r.Type, r.Target, ty)
		}
	}
	for p := range ovr {
		found := false
		for _, x := range s.Pkg.Parts {
			if strings.EqualFold("/"+x.Name, p) {
				found = true
			}
		}
		if !found {
			c.Violate("override-missing", "%s names part %q which is not in the package", ctPart, p)
		}
	}
	c.Event("content types checked")
}

// save runs the real WriteTo.
func save(d *docx.Docx) ([]byte, error) {
	var buf bytes.Buffer
	_, err := d.WriteTo(&buf)
	return buf.Bytes(), err
}

// open runs the real Parse.
func open(data []byte) (*docx.Docx, error) {
	r, n := readerOf(data)
	return docx.Parse(r, n)
}

// readerOf gives one of many readers of the same package, chosen by it: with
// more behind it, within something larger, and that tell the end with the
// last bytes.
func readerOf(data []byte) (io.ReaderAt, int64) {
	n := int64(len(data))
	k := 0
	for i := len(data) / 3; i < len(data) && i < len(data)/3+64; i++ {
		k = k*31 + int(data[i])
	}
	switch uint(k) % 10 {
	case 0:
		return bytes.NewReader(append(append([]byte(nil), data...), anotherPackage...)), n
	case 1:
		b := append(append([]byte("PK before "), data...), " and behind"...)
		return io.NewSectionReader(bytes.NewReader(b), 10, n), n
	case 2:
		return strings.NewReader(string(data)), n
	case 3, 4:
		return eofReader(data), n
	}
	return bytes.NewReader(data), n
}

// anotherPackage is a small package of another document.
var anotherPackage = (&Pkg{Parts: []Part{
	{Name: ctPart, Data: []byte(`<?xml version="1.0"?><Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types"><Default Extension="xml" ContentType="application/xml"/></Types>`)},
	{Name: docPart, Data: []byte(`<?xml version="1.0"?><w:document xmlns:w="http://schemas.openxmlformats.org/wordprocessingml/2006/main"><w:body><w:p><w:r><w:t>another</w:t></w:r></w:p></w:body></w:document>`)},
}}).storeBytes()

// eofReader tells the end together with the last bytes.
type eofReader []byte

func (r eofReader) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 || off >= int64(len(r)) {
		return 0, io.EOF
	}
	n := copy(p, r[off:])
	if int(off)+n == len(r) {
		return n, io.EOF
	}
	return n, nil
}

// mustSave saves and reports failure as a violation.
func (c *Ctx) mustSave(d *docx.Docx, what string) []byte {
	b, err := save(d)
	if err != nil {
		c.Violate("save-failed", "saving %s failed: %v", what, err)
		return nil
	}
	c.Event("documents saved")
	return b
}

func (c *Ctx) mustOpen(b []byte, what string) *docx.Docx {
	d, err := open(b)
	if err != nil {
		c.Violate("open-failed", "opening %s failed: %v", what, err)
		return nil
	}
	c.Event("documents opened")
	return d
}

// docOf reads the document part of a saved package leniently for trees.
func docOf(data []byte) (*Node, error) {
	pk, err := readPkg(data)
	if err != nil {
		return nil, err
	}
	dx, ok := pk.get(docPart)
	if !ok {
		return nil, fmt.Errorf("no document part")
	}
	return parseStrict(dx)
}

// World is a generated input package with everything the oracles need to know.
type World struct {
	Pkg    *Pkg
	Doc    *Node
	Rels   []Rel
	Media  map[string][]byte // name below word/media/ -> bytes
	Images map[string]string // relationship id -> media name
	Links  map[string]string // relationship id -> URL
	Other  map[string][]byte // every part that is neither document, rels nor media
}

// WorldOpt tunes world generation.
type WorldOpt struct {
	Items         int
	Images        int
	Links         int
	Extra         bool // extra parts with arbitrary bytes and names
	OddIDs        bool // relationship ids with gaps, out of order
	Setup         func(g *Gen)
	Style         *Style
	DirEntry      bool
	Types         []string // image formats ("" = png)
	Exts          bool     // also other extensions than those
	ModelessLinks bool     // also a hyperlink relationship without a mode
	Small         bool     // never very many of anything
}

func local(t string) bool {
	for _, l := range localTargets {
		if t == l {
			return true
		}
	}
	return false
}

func ctXML(r *rand.Rand, over [][2]string, defs [][2]string) []byte {
	root := el("ct:Types")
	for _, d := range defs {
		root.add(el("ct:Default").set("Extension", d[0]).set("ContentType", d[1]))
	}
	for _, d := range over {
		root.add(el("ct:Override").set("PartName", d[0]).set("ContentType", d[1]))
	}
	var sb strings.Builder
	sb.WriteString(xmlDecl)
	s := Style{Prefixes: map[string]string{"ct": ""}}
	s.write(&sb, root, `xmlns="`+nsCT+`"`)
	return []byte(sb.String())
}

// localTargets are targets of links without a mode.
var localTargets = []string{"#top", "#_Toc1", "document.xml", "#"}

// newWorld generates an input package.
func newWorld(r *rand.Rand, o WorldOpt) *World {
	w := &World{Pkg: &Pkg{}, Media: map[string][]byte{}, Images: map[string]string{}, Links: map[string]string{}, Other: map[string][]byte{}}
	next := 1
	used := map[string]bool{}
	parts64 := 0
	if !o.Small && r.Intn(50) == 0 { // much of something
		switch r.Intn(5) {
		case 0:
			o.Items = many(r)
		case 1:
			if o.Images > 0 {
				o.Images = many(r)
			}
		case 2:
			if o.Links > 0 {
				o.Links = many(r)
			}
		case 3:
			if o.Extra {
				parts64 = many(r)
			}
		case 4:
			if o.Items > 0 && o.Images > 0 {
				o.Items, o.Images = 20+r.Intn(50), 10+r.Intn(60)
			}
		}
	}
	rid := func() string {
		s := "rId" + strconv.Itoa(next)
		for next++; used[s]; next++ {
			s = "rId" + strconv.Itoa(next)
		}
		used[s] = true
		if o.OddIDs && r.Intn(3) == 0 {
			next += r.Intn(20)
			if r.Intn(20) == 0 {
				next += 1000 + r.Intn(100000)
			}
		}
		return s
	}
	add := func(name string, data []byte) { w.Other[name] = data }
	over := [][2]string{{"/word/document.xml", "application/vnd.openxmlformats-officedocument.wordprocessingml.document.main+xml"}}
	add("_rels/.rels", []byte(xmlDecl+`<Relationships xmlns="`+nsREL+`"><Relationship Id="rId1" Type="`+relBase+`officeDocument" Target="word/document.xml"/></Relationships>`))
	parts := []struct{ n, t string }{{"styles.xml", "styles"}, {"settings.xml", "settings"}, {"fontTable.xml", "fontTable"}, {"theme/theme1.xml", "theme"}, {"numbering.xml", "numbering"}, {"footnotes.xml", "footnotes"}, {"header1.xml", "header"}, {"footer2.xml", "footer"}}
	for i, p := range parts {
		if i > 0 && r.Intn(2) == 0 {
			continue
		}
		w.Rels = append(w.Rels, Rel{rid(), relBase + p.t, p.n, ""})
		add("word/"+p.n, []byte(xmlDecl+`<w:`+p.t+` xmlns:w="`+nsW+`"><w:x w:val="`+strconv.Itoa(r.Int())+`"/></w:`+p.t+`>`))
		over = append(over, [2]string{"/word/" + p.n, "application/vnd.openxmlformats-officedocument.wordprocessingml." + p.t + "+xml"})
	}
	for i := 0; i < parts64; i++ {
		add("customXml/many"+strconv.Itoa(i)+".xml", []byte("<x>"+strconv.Itoa(r.Int())+"</x>"))
	}
	if o.Extra {
		for i := r.Intn(5); i > 0; i-- {
			b := make([]byte, r.Intn(3000))
			r.Read(b)
			if r.Intn(3) == 0 {
				b = bytes.Repeat([]byte{byte(i)}, r.Intn(200000))
			}
			n := []string{"customXml/item", "word/embeddings/ole", "docProps/thumb", "word/глава", "word/a b&c;", "word/mediaX/y", "Word/Media/up", "word/document.xml.bak", "word/_rels/header1.xml.rels", "word/media2"}[r.Intn(10)] + strconv.Itoa(i) + ".bin"
			add(n, b)
		}
		if r.Intn(4) == 0 {
			add("word/embeddings/empty.bin", nil)
		}
		for r.Intn(2) == 0 { // names that other programs use
			n := knownParts[r.Intn(len(knownParts))]
			if _, ok := w.Other[n]; !ok {
				add(n, []byte("<x>"+strconv.Itoa(r.Int())+"</x>"))
			}
		}
		if r.Intn(3) == 0 { // parts of the package's other documents, with the usual names
			x := func() string { return strconv.Itoa(r.Int()) }
			rel := func(t, target string) []byte {
				return []byte(xmlDecl + `<Relationships xmlns="` + nsREL + `"><Relationship Id="rId1" Type="` + relBase + t + `" Target="` + target + `"/></Relationships>`)
			}
			if r.Intn(2) == 0 {
				add("word/glossary/document.xml", []byte(xmlDecl+`<w:glossaryDocument xmlns:w="`+nsW+`"><w:docParts><w:x w:val="`+x()+`"/></w:docParts></w:glossaryDocument>`))
				add("word/glossary/_rels/document.xml.rels", rel("styles", "styles.xml"))
				add("word/glossary/styles.xml", []byte(xmlDecl+`<w:styles xmlns:w="`+nsW+`"><w:x w:val="`+x()+`"/></w:styles>`))
			}
			if r.Intn(2) == 0 {
				img := makeImage(r, "png", 3, 3)
				add("word/glossary/media/image1.png", img)
				add("media/image1.png", similar(r, img))
				add("docProps/thumbnail.png", img)
			}
			if r.Intn(2) == 0 {
				add("customXml/item1.xml", []byte(`<z/>`))
				add("customXml/_rels/item1.xml.rels", rel("customXmlProps", "itemProps1.xml"))
				add("customXml/itemProps1.xml", []byte(`<p v="`+x()+`"/>`))
			}
			if r.Intn(2) == 0 {
				add("document.xml", []byte(`<w:document xmlns:w="`+nsW+`"/>`))
				add("_rels/document.xml.rels", rel("x", "_rels/.rels"))
				add("customXml/word/document.xml", []byte(`<x>`+x()+`</x>`))
				add("xl/word/media/image1.png", []byte("not a picture"))
			}
			if r.Intn(2) == 0 {
				add("word/_rels/header1.xml.rels", rel("image", "media/image1.png"))
				add("word/_rels/document.xml.rels.xml", []byte(`<x/>`))
			}
		}
	}
	last := map[string][]byte{}
	for i := 0; i < o.Images; i++ {
		f := "png"
		if len(o.Types) > 0 {
			f = o.Types[r.Intn(len(o.Types))]
		}
		e := f
		if o.Exts && r.Intn(2) == 0 {
			e = otherExts[r.Intn(len(otherExts))]
			if r.Intn(4) == 0 {
				e = strings.ToUpper(e)
			}
		}
		name := "image" + strconv.Itoa(i+1) + "." + e
		if o.OddIDs && r.Intn(4) == 0 {
			name = []string{"Bild ", "图", "x.y.", "IMG_", "sub/pic", "a%20b", "100%", "a+b&c", "UPPER.", ".x"}[r.Intn(10)] + strconv.Itoa(i) + "." + e
		}
		data := makeImage(r, f, 1+r.Intn(50), 1+r.Intn(50))
		if len(last[f]) > 0 && r.Intn(4) == 0 {
			data = similar(r, last[f])
		}
		if r.Intn(80) == 0 {
			data = larger(r, data)
		}
		if len(last[f]) > 0 && r.Intn(8) == 0 {
			data = append([]byte(nil), last[f]...)
		}
		last[f] = data
		if o.OddIDs && r.Intn(8) == 0 { // like one of those to be added, sometimes empty
			n := "image" + strconv.Itoa(100000+r.Intn(4)) + "." + e
			if _, ok := w.Media[n]; !ok {
				name = n
				if r.Intn(3) == 0 {
					data = nil
				}
			}
		}
		w.Media[name] = data
		id := rid()
		w.Images[id] = name
		w.Rels = append(w.Rels, Rel{id, relImage, "media/" + name, ""})
	}
	prev := ""
	for i := 0; i < o.Links; i++ {
		id := prev + strconv.Itoa(r.Intn(10)) // an id that begins like another
		if prev == "" || used[id] || r.Intn(5) > 0 {
			id = rid()
		}
		used[id] = true
		prev = id
		if len(id) > 8 {
			prev = ""
		}
		u := []string{"http://example.com/?a=1&b=", "https://例え.jp/", "mailto:x@y.z?subject=a b", "file:///C:\\dir\\", "http://h/\"q\"<", "http://h/a%20b%C3%A9+c/../%2e%41#", "HTTP://EXAMPLE.COM:80//"}[r.Intn(7)] + strconv.Itoa(i)
		if r.Intn(8) == 0 {
			u = partLike[r.Intn(len(partLike))]
		}
		if len(w.Rels) > 0 && r.Intn(12) == 0 { // like the target of another
			if p := w.Rels[r.Intn(len(w.Rels))].Target; !strings.HasPrefix(p, "/word/") {
				u = "/word/" + p
			}
		}
		w.Links[id] = u
		w.Rels = append(w.Rels, Rel{id, relLink, u, "External"})
	}
	if r.Intn(3) == 0 { // ids and targets of which the concatenations are the same
		for _, a := range w.Rels {
			for i, b := range w.Rels {
				if b.Type == relLink && a.Type == relLink && a.ID != b.ID && strings.HasPrefix(a.ID, b.ID) && r.Intn(2) == 0 {
					u := strings.TrimPrefix(a.ID, b.ID) + a.Target
					if !hasValue(w.Links, u) {
						w.Rels[i].Target, w.Links[b.ID] = u, u
					}
				}
			}
		}
	}
	if o.Extra && r.Intn(3) == 0 { // a picture that the document does not refer to
		img := makeImage(r, "png", 1+r.Intn(9), 1+r.Intn(9))
		n := []string{"logo.png", "image99.png", "image0.png", "unused.png"}[r.Intn(4)]
		w.Media[n] = img
		if r.Intn(2) == 0 {
			add("word/_rels/footer9.xml.rels", []byte(xmlDecl+`<Relationships xmlns="`+nsREL+`"><Relationship Id="rId1" Type="`+relImage+`" Target="media/`+n+`"/></Relationships>`))
			add("word/footer9.xml", []byte(`<w:ftr xmlns:w="`+nsW+`"/>`))
		}
	}
	if o.ModelessLinks && r.Intn(3) == 0 { // a place in the same document, or a part of the package
		w.Rels = append(w.Rels, Rel{rid(), relLink, localTargets[r.Intn(len(localTargets))], ""})
	}
	if r.Intn(6) == 0 { // the mode that is the default
		for i := range w.Rels {
			if w.Rels[i].Mode == "" && w.Rels[i].Type != relLink && r.Intn(2) == 0 {
				w.Rels[i].Mode = "Internal"
			}
		}
	}
	if o.OddIDs {
		r.Shuffle(len(w.Rels), func(i, j int) { w.Rels[i], w.Rels[j] = w.Rels[j], w.Rels[i] })
	}
	g := &Gen{Rand: r, Hollow: r.Intn(6) == 0}
	for _, x := range w.Rels { // deterministic order
		if _, ok := w.Images[x.ID]; ok {
			g.Embeds = append(g.Embeds, x.ID)
		}
		if _, ok := w.Links[x.ID]; ok {
			g.Links = append(g.Links, x.ID)
		}
	}
	if o.Setup != nil {
		o.Setup(g)
	}
	w.Doc = g.document(o.Items)
	if r.Intn(3) == 0 {
		twinProps(r, w.Doc)
	}
	st := o.Style
	if st == nil {
		st = plainStyle()
		if r.Intn(6) == 0 { // written by another program
			st = randomStyle(r)
		}
	}
	defs := [][2]string{{"rels", "application/vnd.openxmlformats-package.relationships+xml"}, {"xml", "application/xml"}, {"png", "image/png"}, {"jpeg", "image/jpeg"}, {"gif", "image/gif"}, {"webp", "image/webp"}, {"bin", "application/octet-stream"}}
	exts := map[string]bool{}
	for _, d := range defs {
		exts[d[0]] = true
	}
	if o.Exts {
		for _, e := range otherExts {
			defs = append(defs, [2]string{e, "image/x-" + e})
			exts[e] = true
		}
	}
	for _, n := range knownParts {
		e := strings.TrimPrefix(path.Ext(n), ".")
		if _, ok := w.Other[n]; ok && !exts[e] {
			exts[e] = true
			defs = append(defs, [2]string{e, "application/x-" + strings.ToLower(e)})
		}
	}
	add(ctPart, ctXML(r, over, defs))
	names := make([]string, 0, len(w.Other))
	for n := range w.Other {
		names = append(names, n)
	}
	sort.Strings(names)
	if o.DirEntry {
		for _, n := range []string{"word/", "word/media/", "_rels/", "word/_rels/", "customXml/"} {
			if r.Intn(2) == 0 {
				w.Pkg.put(n, nil)
			}
		}
	}
	w.Pkg.put(ctPart, w.Other[ctPart])
	for _, n := range names {
		if n != ctPart {
			w.Pkg.put(n, w.Other[n])
		}
	}
	w.Pkg.put(docPart, []byte(st.render(w.Doc)))
	w.Pkg.put(relsPart, relsXML(w.Rels, st))
	mn := make([]string, 0, len(w.Media))
	for n := range w.Media {
		mn = append(mn, n)
	}
	sort.Strings(mn)
	for _, n := range mn {
		w.Pkg.put("word/media/"+n, w.Media[n])
	}
	return w
}

// otherExts are extensions of pictures that the template does not declare.
var otherExts = []string{"jfif", "picture", "tiff", "emf", "jpg", "photoshop", "x-wmf", "j2"}

// knownParts are names of parts that programs write.
var knownParts = strings.Fields("word/printerSettings1.bin word/printerSettings/printerSettings2.bin word/vbaProject.bin word/vbaData.xml word/comments.xml word/commentsExtended.xml word/people.xml docProps/custom.xml docProps/app.xml docProps/core.xml _xmlsignatures/sig1.xml _xmlsignatures/origin.sigs word/activeX/activeX1.bin word/charts/chart1.xml word/diagrams/data1.xml word/fonts/font1.odttf word/webSettings.xml word/stylesWithEffects.xml word/endnotes.xml word/attachedToolbars.bin docProps/thumbnail.jpeg mimetype.bin [trash]/0000.dat META-INF/manifest.xml word/ink/ink1.xml Thumbs.db .DS_Store __MACOSX/._document.xml word/embeddings/oleObject1.bin word/embeddings/Workbook.xlsx word/header2.xml word/_rels/header2.xml.rels word/_rels/footnotes.xml.rels word/_rels/settings.xml.rels customXml/item2.xml customUI/customUI.xml word/keyMapping.xml word/afchunk.htm word/tmp~.xml word/~$doc.xml")

func hasValue(m map[string]string, v string) bool {
	for _, x := range m {
		if x == v {
			return true
		}
	}
	return false
}

// twinProps gives some elements the same properties as the one before them.
func twinProps(r *rand.Rand, doc *Node) {
	last := map[string]*Node{}
	doc.walk(func(n *Node) {
		for i, k := range n.Kids {
			switch k.Tag {
			case "w:rPr", "w:pPr", "w:tcPr", "w:trPr", "w:tblPr", "wps:spPr", "wps:bodyPr", "wp:effectExtent", "wp:cNvGraphicFramePr":
				key := n.Tag + " " + k.Tag
				if o := last[key]; o != nil && r.Intn(2) == 0 {
					n.Kids[i] = o.clone()
				}
				last[key] = n.Kids[i]
				continue
			}
			switch n.Tag {
			case "w:rPr", "w:pPr", "w:tcPr", "w:trPr", "w:tblPr", "w:tcBorders", "w:tblBorders", "w:tabs", "wps:spPr", "pic:spPr", "a:ln", "wp:anchor", "wp:inline":
				switch k.Tag {
				case "wp:docPr", "a:graphic":
					continue
				}
				key := n.Tag + " " + k.Tag
				if o := last[key]; o != nil && r.Intn(3) == 0 {
					n.Kids[i] = o.clone()
				}
				last[key] = n.Kids[i]
			}
		}
	})
}

// bytes gives the zip of the world.
func (w *World) bytes(r *rand.Rand) []byte { return w.Pkg.zipBytes(r) }

// dangling lists reference values in the document that resolve to nothing or
// to the wrong type in the input itself.
func (w *World) dangling() map[string]bool {
	m := map[string]bool{}
	w.Doc.walk(func(n *Node) {
		for _, a := range n.Attrs {
			if strings.HasPrefix(a.Key, "r:") {
				_, i := w.Images[a.Val]
				_, l := w.Links[a.Val]
				if !i && !l {
					m[a.Val] = true
				}
			}
		}
	})
	return m
}
