package main

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"math/rand"
	"sort"
	"strings"
)

// Namespaces and the canonical prefixes the monitors use for them.
const (
	nsW     = "http://schemas.openxmlformats.org/wordprocessingml/2006/main"
	nsR     = "http://schemas.openxmlformats.org/officeDocument/2006/relationships"
	nsWP    = "http://schemas.openxmlformats.org/drawingml/2006/wordprocessingDrawing"
	nsWPS   = "http://schemas.microsoft.com/office/word/2010/wordprocessingShape"
	nsWPC   = "http://schemas.microsoft.com/office/word/2010/wordprocessingCanvas"
	nsWPG   = "http://schemas.microsoft.com/office/word/2010/wordprocessingGroup"
	nsMC    = "http://schemas.openxmlformats.org/markup-compatibility/2006"
	nsA     = "http://schemas.openxmlformats.org/drawingml/2006/main"
	nsPIC   = "http://schemas.openxmlformats.org/drawingml/2006/picture"
	nsREL   = "http://schemas.openxmlformats.org/package/2006/relationships"
	nsCT    = "http://schemas.openxmlformats.org/package/2006/content-types"
	nsXML   = "http://www.w3.org/XML/1998/namespace"
	nsXMLNS = "xmlns"
	nsO     = "urn:schemas-microsoft-com:office:office"
	nsV     = "urn:schemas-microsoft-com:vml"
	nsZ     = "urn:verif:unknown"
)

var prefixOf = map[string]string{
	nsW: "w", nsR: "r", nsWP: "wp", nsWPS: "wps", nsWPC: "wpc", nsWPG: "wpg",
	nsMC: "mc", nsA: "a", nsPIC: "pic", nsREL: "rel", nsCT: "ct", nsXML: "xml",
	nsO: "o", nsV: "v", nsZ: "z",
}

var nsOf = func() map[string]string {
	m := map[string]string{}
	for k, v := range prefixOf {
		m[v] = k
	}
	return m
}()

// Attr is an attribute with its canonical key ("w:val", "cx", "xml:space").
type Attr struct{ Key, Val string }

// Node is an element (Tag "w:p") or a text node (Tag "").
type Node struct {
	Tag   string
	Attrs []Attr
	Kids  []*Node
	Text  string
}

func el(tag string, kids ...*Node) *Node { return &Node{Tag: tag, Kids: kids} }
func tx(s string) *Node                  { return &Node{Text: s} }

func (n *Node) set(key, val string) *Node {
	n.Attrs = append(n.Attrs, Attr{key, val})
	return n
}

func (n *Node) attr(key string) (string, bool) {
	for _, a := range n.Attrs {
		if a.Key == key {
			return a.Val, true
		}
	}
	return "", false
}

func (n *Node) get(key string) string { v, _ := n.attr(key); return v }

func (n *Node) add(k ...*Node) *Node { n.Kids = append(n.Kids, k...); return n }

func (n *Node) first(tag string) *Node {
	for _, k := range n.Kids {
		if k.Tag == tag {
			return k
		}
	}
	return nil
}

func (n *Node) all(tag string) (r []*Node) {
	for _, k := range n.Kids {
		if k.Tag == tag {
			r = append(r, k)
		}
	}
	return
}

func (n *Node) walk(f func(*Node)) {
	f(n)
	for _, k := range n.Kids {
		k.walk(f)
	}
}

func (n *Node) text() string {
	if n.Tag == "" {
		return n.Text
	}
	var sb strings.Builder
	for _, k := range n.Kids {
		if k.Tag == "" {
			sb.WriteString(k.Text)
		}
	}
	return sb.String()
}

func (n *Node) clone() *Node {
	m := &Node{Tag: n.Tag, Text: n.Text}
	m.Attrs = append([]Attr(nil), n.Attrs...)
	for _, k := range n.Kids {
		m.Kids = append(m.Kids, k.clone())
	}
	return m
}

func (n *Node) count() int {
	c := 0
	n.walk(func(m *Node) {
		if m.Tag != "" {
			c++
		}
	})
	return c
}

// canonName gives the canonical name of an expanded name.
func canonName(ns, local string) string {
	if ns == "" {
		return local
	}
	if p, ok := prefixOf[ns]; ok {
		return p + ":" + local
	}
	return "{" + ns + "}" + local
}

// parseStrict parses XML with full namespace well-formedness: one root,
// matching tags by literal name, no unbound prefix, no duplicate attribute
// (by literal and by expanded name), no character data outside the root.
func parseStrict(data []byte) (*Node, error) {
	d := xml.NewDecoder(bytes.NewReader(data))
	d.Strict = true
	type frame struct {
		node *Node
		raw  xml.Name
		ns   map[string]string
	}
	var stack []frame
	var root *Node
	lookup := func(p string) (string, bool) {
		if p == "xml" {
			return nsXML, true
		}
		for i := len(stack) - 1; i >= 0; i-- {
			if v, ok := stack[i].ns[p]; ok {
				return v, v != "" || p == ""
			}
		}
		return "", p == ""
	}
	for {
		t, err := d.RawToken()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		switch tt := t.(type) {
		case xml.StartElement:
			if len(stack) == 0 && root != nil {
				return nil, fmt.Errorf("second root element <%s:%s>", tt.Name.Space, tt.Name.Local)
			}
			ns := map[string]string{}
			raw := map[xml.Name]bool{}
			for _, a := range tt.Attr {
				if raw[a.Name] {
					return nil, fmt.Errorf("duplicate attribute %s:%s on <%s:%s>", a.Name.Space, a.Name.Local, tt.Name.Space, tt.Name.Local)
				}
				raw[a.Name] = true
				if a.Name.Space == "xmlns" {
					if a.Value == "" {
						return nil, fmt.Errorf("prefix %s bound to the empty namespace", a.Name.Local)
					}
					ns[a.Name.Local] = a.Value
				} else if a.Name.Space == "" && a.Name.Local == "xmlns" {
					ns[""] = a.Value
				}
			}
			n := &Node{}
			stack = append(stack, frame{n, tt.Name, ns})
			u, ok := lookup(tt.Name.Space)
			if !ok {
				return nil, fmt.Errorf("unbound prefix in <%s:%s>", tt.Name.Space, tt.Name.Local)
			}
			if tt.Name.Local == "" {
				return nil, fmt.Errorf("empty element name")
			}
			n.Tag = canonName(u, tt.Name.Local)
			seen := map[string]bool{}
			for _, a := range tt.Attr {
				if a.Name.Space == "xmlns" || (a.Name.Space == "" && a.Name.Local == "xmlns") {
					continue
				}
				key := a.Name.Local
				if a.Name.Space != "" {
					u, ok := lookup(a.Name.Space)
					if !ok {
						return nil, fmt.Errorf("unbound prefix in attribute %s:%s of <%s>", a.Name.Space, a.Name.Local, n.Tag)
					}
					key = canonName(u, a.Name.Local)
				}
				if seen[key] {
					return nil, fmt.Errorf("duplicate attribute %s on <%s>", key, n.Tag)
				}
				seen[key] = true
				n.Attrs = append(n.Attrs, Attr{key, a.Value})
			}
			if len(stack) > 1 {
				p := stack[len(stack)-2].node
				p.Kids = append(p.Kids, n)
			} else {
				root = n
			}
		case xml.EndElement:
			if len(stack) == 0 {
				return nil, fmt.Errorf("stray end tag </%s:%s>", tt.Name.Space, tt.Name.Local)
			}
			top := stack[len(stack)-1]
			if top.raw != tt.Name {
				return nil, fmt.Errorf("end tag </%s:%s> closes <%s:%s>", tt.Name.Space, tt.Name.Local, top.raw.Space, top.raw.Local)
			}
			stack = stack[:len(stack)-1]
		case xml.CharData:
			if len(stack) == 0 {
				if strings.TrimSpace(strings.TrimPrefix(string(tt), "\ufeff")) != "" {
					return nil, fmt.Errorf("character data outside the root element")
				}
				continue
			}
			p := stack[len(stack)-1].node
			if k := len(p.Kids); k > 0 && p.Kids[k-1].Tag == "" {
				p.Kids[k-1].Text += string(tt)
			} else {
				p.Kids = append(p.Kids, tx(string(tt)))
			}
		}
	}
	if len(stack) > 0 {
		return nil, fmt.Errorf("element <%s> is not closed", stack[len(stack)-1].node.Tag)
	}
	if root == nil {
		return nil, fmt.Errorf("no root element")
	}
	return root, nil
}

// textTags are the elements whose character data is content.
var textTags = map[string]bool{"w:t": true, "w:instrText": true, "wp:posOffset": true}

// orderedTags are the elements whose children are a sequence; the children of
// all others are compared as a set of properties.
var orderedTags = map[string]bool{
	"w:document": true, "w:body": true, "w:p": true, "w:r": true, "w:hyperlink": true,
	"w:tbl": true, "w:tr": true, "w:tc": true, "w:tabs": true, "w:tblGrid": true,
	"w:txbxContent": true, "wpc:wpc": true, "wpg:wgp": true, "wpg:grpSp": true,
	"w:drawing": true, "rel:Relationships": true, "ct:Types": true,
}

// propTags are property children whose place among ordered siblings is not
// part of the meaning: they are moved to the front, sorted, before comparing.
var propTags = map[string]bool{
	"w:pPr": true, "w:tblPr": true, "w:tblGrid": true, "w:trPr": true, "w:tcPr": true,
	"wpg:cNvGrpSpPr": true, "wpg:grpSpPr": true, "wpg:cNvPr": true, "wpc:bg": true, "wpc:whole": true,
}

// norm puts a tree into the form that is compared: whitespace-only text
// dropped outside text elements, text merged, attributes sorted, sets sorted.
func (n *Node) norm() *Node {
	m := &Node{Tag: n.Tag}
	m.Attrs = append([]Attr(nil), n.Attrs...)
	sort.Slice(m.Attrs, func(i, j int) bool { return m.Attrs[i].Key < m.Attrs[j].Key })
	if textTags[n.Tag] {
		var sb strings.Builder
		for _, k := range n.Kids {
			if k.Tag == "" {
				sb.WriteString(k.Text)
			}
		}
		if sb.Len() > 0 {
			m.Kids = append(m.Kids, tx(sb.String()))
		}
		return m
	}
	var props, rest []*Node
	for _, k := range n.Kids {
		if k.Tag == "" {
			if strings.TrimSpace(k.Text) == "" {
				continue
			}
			rest = append(rest, tx(k.Text))
			continue
		}
		kk := k.norm()
		if !orderedTags[n.Tag] || propTags[k.Tag] || (n.Tag == "w:r" && (k.Tag == "w:rPr" || k.Tag == "w:instrText")) {
			props = append(props, kk)
		} else {
			rest = append(rest, kk)
		}
	}
	sort.SliceStable(props, func(i, j int) bool {
		if props[i].Tag != props[j].Tag {
			return props[i].Tag < props[j].Tag
		}
		return props[i].str() < props[j].str()
	})
	m.Kids = append(props, rest...)
	return m
}

func (n *Node) str() string {
	var sb strings.Builder
	n.write(&sb)
	return sb.String()
}

func (n *Node) write(sb *strings.Builder) {
	if n.Tag == "" {
		sb.WriteString(fmt.Sprintf("%q", n.Text))
		return
	}
	sb.WriteByte('<')
	sb.WriteString(n.Tag)
	for _, a := range n.Attrs {
		sb.WriteString(fmt.Sprintf(" %s=%q", a.Key, a.Val))
	}
	if len(n.Kids) == 0 {
		sb.WriteString("/>")
		return
	}
	sb.WriteByte('>')
	for _, k := range n.Kids {
		k.write(sb)
	}
	sb.WriteString("</>")
}

// canon is the comparison string of a tree.
func (n *Node) canon() string { return n.norm().str() }

// diffTrees compares two trees (after norm) and names the first difference.
func diffTrees(want, got *Node) string {
	return diffNorm(want.norm(), got.norm(), "/"+want.Tag)
}

func short(s string) string {
	if len(s) > 300 {
		return s[:200] + " ...(" + fmt.Sprint(len(s)) + " bytes)... " + s[len(s)-60:]
	}
	return s
}

func diffNorm(a, b *Node, path string) string {
	if a.Tag != b.Tag {
		return fmt.Sprintf("%s: want %s, got %s", path, short(a.str()), short(b.str()))
	}
	if a.Text != b.Text {
		return fmt.Sprintf("%s: text: want %s, got %s", path, short(fmt.Sprintf("%q", a.Text)), short(fmt.Sprintf("%q", b.Text)))
	}
	am, bm := map[string]string{}, map[string]string{}
	for _, x := range a.Attrs {
		am[x.Key] = x.Val
	}
	for _, x := range b.Attrs {
		bm[x.Key] = x.Val
	}
	for _, x := range a.Attrs {
		v, ok := bm[x.Key]
		if !ok {
			return fmt.Sprintf("%s@%s: lost (want %s)", path, x.Key, short(fmt.Sprintf("%q", x.Val)))
		}
		if v != x.Val {
			return fmt.Sprintf("%s@%s: want %s, got %s", path, x.Key, short(fmt.Sprintf("%q", x.Val)), short(fmt.Sprintf("%q", v)))
		}
	}
	for _, x := range b.Attrs {
		if _, ok := am[x.Key]; !ok {
			return fmt.Sprintf("%s@%s: unexpected, value %s", path, x.Key, short(fmt.Sprintf("%q", x.Val)))
		}
	}
	for i := 0; i < len(a.Kids) && i < len(b.Kids); i++ {
		if a.Kids[i].Tag != b.Kids[i].Tag {
			return fmt.Sprintf("%s: child %d: want %s, got %s", path, i, short(a.Kids[i].str()), short(b.Kids[i].str()))
		}
		if d := diffNorm(a.Kids[i], b.Kids[i], fmt.Sprintf("%s/%s[%d]", path, a.Kids[i].Tag, i)); d != "" {
			return d
		}
	}
	if len(a.Kids) > len(b.Kids) {
		return fmt.Sprintf("%s: lost child %s", path, short(a.Kids[len(b.Kids)].str()))
	}
	if len(b.Kids) > len(a.Kids) {
		return fmt.Sprintf("%s: unexpected child %s", path, short(b.Kids[len(a.Kids)].str()))
	}
	return ""
}

// Style says how to spell a tree.
type Style struct {
	r         *rand.Rand
	Prefixes  map[string]string // namespace -> prefix ("" default namespace for elements)
	Space     float64           // chance of whitespace between element children
	Comment   float64           // chance of a comment / PI between element children
	Unknown   float64           // chance of an unknown element between children
	UnkAttr   float64           // chance of an unknown attribute
	Shuffle   bool              // shuffle attribute order
	Order     float64           // chance of another order of the properties in an element
	CharRef   float64           // chance that a character is written as a reference
	CData     float64           // chance that a text is written (partly) as CDATA
	TextCmt   float64           // chance of a comment inside a text element
	Pair      float64           // chance of <x></x> instead of <x/>
	SglQuote  float64           // chance of single quoting
	LocalNS   bool              // declare drawing namespaces where used instead of on the root
	Alternate float64           // chance of wrapping an eligible drawing into mc:AlternateContent
	NoUnkIn   map[string]bool   // elements whose content gets no unknown elements
	Counts    map[string]int
	Hidden    float64            // chance that an unknown element holds what is known in its place
	pool      map[string][]*Node // the children that occur in elements of a tag
}

func (s *Style) hit(p float64, what string) bool {
	if p <= 0 || s.r == nil {
		return false
	}
	if s.r.Float64() < p {
		if s.Counts != nil {
			s.Counts[what]++
		}
		return true
	}
	return false
}

func (s *Style) name(canon string, isAttr bool) string {
	i := strings.IndexByte(canon, ':')
	if i < 0 {
		return canon
	}
	p := canon[:i]
	if p == "xml" {
		return canon
	}
	if s.Prefixes != nil {
		if q, ok := s.Prefixes[p]; ok {
			if q == "" && !isAttr {
				return canon[i+1:]
			}
			if q != "" {
				p = q
			}
		}
	}
	return p + ":" + canon[i+1:]
}

func escAttr(s string, q byte) string {
	var sb strings.Builder
	for _, r := range s {
		switch r {
		case '&':
			sb.WriteString("&amp;")
		case '<':
			sb.WriteString("&lt;")
		case '>':
			sb.WriteString("&gt;")
		case '"':
			if q == '"' {
				sb.WriteString("&quot;")
			} else {
				sb.WriteRune(r)
			}
		case '\'':
			if q == '\'' {
				sb.WriteString("&apos;")
			} else {
				sb.WriteRune(r)
			}
		case '\n', '\r', '\t':
			sb.WriteString(fmt.Sprintf("&#%d;", r))
		default:
			sb.WriteRune(r)
		}
	}
	return sb.String()
}

func (s *Style) escText(t string) string {
	var sb strings.Builder
	for _, r := range t {
		switch {
		case r == '&':
			sb.WriteString("&amp;")
		case r == '<':
			sb.WriteString("&lt;")
		case r == '>':
			sb.WriteString("&gt;")
		case r == '\r':
			sb.WriteString("&#xD;")
		case s.hit(s.CharRef, "charref"):
			if s.r.Intn(2) == 0 {
				sb.WriteString(fmt.Sprintf("&#%d;", r))
			} else {
				sb.WriteString(fmt.Sprintf("&#x%X;", r))
			}
		default:
			sb.WriteRune(r)
		}
	}
	return sb.String()
}

func (s *Style) text(t string) string {
	if t != "" && !strings.Contains(t, "\r") && s.hit(s.CData, "cdata") {
		rs := []rune(t)
		i := s.r.Intn(len(rs) + 1)
		j := i + s.r.Intn(len(rs)-i+1)
		mid := strings.ReplaceAll(string(rs[i:j]), "]]>", "]]]]><![CDATA[>")
		return s.escText(string(rs[:i])) + "<![CDATA[" + mid + "]]>" + s.escText(string(rs[j:]))
	}
	if t != "" && s.hit(s.TextCmt, "comment in text") {
		rs := []rune(t)
		i := s.r.Intn(len(rs) + 1)
		return s.escText(string(rs[:i])) + "<!-- c -->" + s.escText(string(rs[i:]))
	}
	return s.escText(t)
}

func (s *Style) filler(sb *strings.Builder, parent string) {
	if s.hit(s.Space, "whitespace") {
		sb.WriteString([]string{"\n", "  ", "\n\t", "\r\n    "}[s.r.Intn(4)])
	}
	if s.hit(s.Comment, "comment") {
		sb.WriteString([]string{"<!-- w:p <w:t>x</w:t> -->", "<?verif pi?>", "<!---->"}[s.r.Intn(3)])
	}
	if ks := s.pool[parent]; len(ks) > 0 && s.hit(s.Hidden, "known content in unknown elements") {
		s.hidden(sb, parent, ks)
	}
	if ks := foreignKids[parent]; len(ks) > 0 && !s.NoUnkIn[parent] && s.hit(s.Unknown, "element of the standard that is not supported") {
		sb.WriteString(bindForeign(ks[s.r.Intn(len(ks))], true))
	}
	if !s.NoUnkIn[parent] && s.hit(s.Unknown, "unknown element") {
		sb.WriteString([]string{
			`<z:future/>`,
			`<z:box z:k="1">text<z:in><z:deep/>more</z:in></z:box>`,
			`<z:ext uri="{X}"><z:unk xmlns:q="urn:q" q:v="w:p"><q:inner/></z:unk></z:ext>`,
			`<z:ext><w2:p xmlns:w2="` + nsW + `"><w2:r><w2:t>hidden</w2:t></w2:r></w2:p></z:ext>`,
			`<z:proofErr z:type="spellStart"/>`,
			`<w2:bookmarkStart xmlns:w2="` + nsW + `" w2:id="0" w2:name="_GoBack"/>`,
			`<w2:lastRenderedPageBreak xmlns:w2="` + nsW + `"></w2:lastRenderedPageBreak>`,
			`<a2:extLst xmlns:a2="` + nsA + `"><a2:ext uri="{28A0092B}"><z:useLocalDpi z:val="0"/></a2:ext></a2:extLst>`,
			`<w2:sdt xmlns:w2="` + nsW + `"><w2:sdtContent><w2:p><w2:r><w2:t>in sdt</w2:t></w2:r></w2:p><w2:r/><w2:tab/></w2:sdtContent></w2:sdt>`,
		}[s.r.Intn(9)])
	}
}

// hidden writes an unknown element that holds elements which would mean
// something if they stood where it stands.
func (s *Style) hidden(sb *strings.Builder, parent string, ks []*Node) {
	in := *s
	in.Unknown, in.Hidden, in.Alternate, in.Comment, in.Space = 0, 0, 0, 0, 0
	var x strings.Builder
	for i := 1 + s.r.Intn(2); i > 0; i-- {
		in.write(&x, ks[s.r.Intn(len(ks))], "")
	}
	p := s.name(parent, false)
	// a wrapper of the standard that is not supported anywhere
	w := []string{"ins", "sdt", "sdtContent", "customXml", "smartTag", "moveTo", "del", "moveFrom", "bdo", "object", "pict", "fldSimple", "ruby", "rt", "rubyBase"}[s.r.Intn(15)]
	switch s.r.Intn(9) {
	case 8: // in one another
		o, e := `<w2:`+w+` xmlns:w2="`+nsW+`">`, `</w2:`+w+`>`
		sb.WriteString(o + o + e + x.String() + o + o + e + e + x.String() + e)
	case 5:
		sb.WriteString(`<w2:` + w + ` xmlns:w2="` + nsW + `" w2:id="5">` + x.String() + `</w2:` + w + `>`)
	case 6:
		sb.WriteString(`<w2:sdt xmlns:w2="` + nsW + `"><w2:sdtPr><w2:id w2:val="1"/></w2:sdtPr><w2:sdtContent>` + x.String() + `</w2:sdtContent></w2:sdt>`)
	case 7: // in an extension, as it is done with DrawingML
		sb.WriteString(`<a2:extLst xmlns:a2="` + nsA + `"><a2:extension uri="{1}">` + x.String() + `</a2:extension></a2:extLst>`)
	case 0:
		sb.WriteString("<z:future>" + x.String() + "</z:future>")
	case 1: // the former state of the element, as in tracked changes
		sb.WriteString("<z:change z:author=\"me\"><" + p + ">" + x.String() + "</" + p + "></z:change>")
	case 2:
		sb.WriteString("<z:a><z:b>" + x.String() + "</z:b>" + x.String() + "</z:a>")
	case 3:
		sb.WriteString("<z:future/><z:other>text" + x.String() + "<z:end/></z:other>")
	case 4:
		sb.WriteString("<z:future>" + x.String() + "<z:future>" + x.String() + "</z:future>" + x.String() + "</z:future>")
	}
}

// learn remembers which elements occur where.
func (s *Style) learn(root *Node) {
	s.pool = map[string][]*Node{}
	root.walk(func(n *Node) {
		if textTags[n.Tag] {
			return
		}
		for _, k := range n.Kids {
			if k.Tag != "" && len(s.pool[n.Tag]) < 60 && k.count() < 60 {
				s.pool[n.Tag] = append(s.pool[n.Tag], k)
			}
		}
	})
}

func (s *Style) write(sb *strings.Builder, n *Node, decl string) {
	if n.Tag == "" {
		sb.WriteString(s.text(n.Text))
		return
	}
	name := s.name(n.Tag, false)
	sb.WriteByte('<')
	sb.WriteString(name)
	attrs := make([]string, 0, len(n.Attrs)+2)
	for _, a := range n.Attrs {
		q := byte('"')
		if s.hit(s.SglQuote, "single quote") {
			q = '\''
		}
		attrs = append(attrs, s.name(a.Key, true)+"="+string(q)+escAttr(a.Val, q)+string(q))
	}
	if s.hit(s.UnkAttr, "unknown attribute") {
		attrs = append(attrs, []string{`z:rsid="00AB"`, `z:flag="true"`, `z:n="-1"`}[s.r.Intn(3)])
	}
	if s.hit(s.UnkAttr, "attribute of the standard that is not supported") {
		if a := s.foreignAttr(n.Tag); a != "" {
			attrs = append(attrs, a)
		}
	}
	if s.Shuffle && s.r != nil {
		s.r.Shuffle(len(attrs), func(i, j int) { attrs[i], attrs[j] = attrs[j], attrs[i] })
	}
	if s.LocalNS {
		p := ""
		switch n.Tag {
		case "a:graphic", "a:graphicFrameLocks":
			p = "a"
		case "pic:pic":
			p = "pic"
		}
		if p != "" {
			attrs = append(attrs, s.nsDecl(p))
		}
	}
	if decl != "" {
		attrs = append(attrs, decl)
	}
	for _, a := range attrs {
		sb.WriteByte(' ')
		sb.WriteString(a)
	}
	var inner strings.Builder
	if textTags[n.Tag] {
		for _, k := range n.Kids {
			s.write(&inner, k, "")
		}
	} else {
		s.filler(&inner, n.Tag)
		for _, k := range s.order(n) {
			if k.Tag == "w:drawing" && n.Tag == "w:r" {
				if req := alternateOf(k); req != "" && s.hit(s.Alternate, "alternate content") {
					s.writeAlternate(&inner, k, req)
					s.filler(&inner, n.Tag)
					continue
				}
			}
			s.write(&inner, k, "")
			s.filler(&inner, n.Tag)
		}
	}
	if inner.Len() == 0 {
		if s.hit(s.Pair, "empty pair") {
			sb.WriteString("></" + name + ">")
		} else {
			sb.WriteString("/>")
		}
		return
	}
	sb.WriteByte('>')
	sb.WriteString(inner.String())
	sb.WriteString("</" + name + ">")
}

// order gives the children of a node in another order where it means nothing.
func (s *Style) order(n *Node) []*Node {
	if s.r == nil || s.Order == 0 || orderedTags[n.Tag] || len(n.Kids) < 2 {
		return n.Kids
	}
	seen := map[string]bool{}
	for _, k := range n.Kids {
		if k.Tag == "" || seen[k.Tag] {
			return n.Kids
		}
		seen[k.Tag] = true
	}
	if !s.hit(s.Order, "order of properties") {
		return n.Kids
	}
	ks := append([]*Node(nil), n.Kids...)
	s.r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	return ks
}

// alternateOf says which Requires value makes the drawing eligible for
// mc:AlternateContent ("" if none).
func alternateOf(d *Node) string {
	req := ""
	d.walk(func(n *Node) {
		switch n.Tag {
		case "wps:wsp":
			if req == "" {
				req = "wps"
			}
		case "wpc:wpc":
			req = "wpc"
		case "wpg:wgp":
			req = "wpg"
		}
	})
	return req
}

func (s *Style) writeAlternate(sb *strings.Builder, d *Node, req string) {
	ac, ch, fb := s.name("mc:AlternateContent", false), s.name("mc:Choice", false), s.name("mc:Fallback", false)
	sb.WriteString("<" + ac + ">")
	ns := *s
	ns.Unknown = 0
	ns.filler(sb, "mc:AlternateContent")
	if s.r.Intn(3) == 0 { // a choice we do not understand comes first
		sb.WriteString("<" + ch + ` Requires="z"><z:newer><z:x/></z:newer></` + ch + ">")
		ns.filler(sb, "mc:AlternateContent")
	}
	attrs := []string{`Requires="` + req + `"`}
	if s.UnkAttr > 0 {
		attrs = append(attrs, []string{`z:flag="true"`, `z:Requires2="wpg"`, `z:n="z"`}[s.r.Intn(3)])
	}
	if s.Shuffle {
		s.r.Shuffle(len(attrs), func(i, j int) { attrs[i], attrs[j] = attrs[j], attrs[i] })
	}
	sb.WriteString("<" + ch + " " + strings.Join(attrs, " ") + ">")
	ns.filler(sb, "mc:Choice")
	s.write(sb, d, "")
	ns.filler(sb, "mc:Choice")
	sb.WriteString("</" + ch + ">")
	ns.filler(sb, "mc:AlternateContent")
	if s.r.Intn(2) == 0 {
		w := s.name("w:pict", false)
		sb.WriteString("<" + fb + "><" + w + "><z:shape/></" + w + "></" + fb + ">")
		ns.filler(sb, "mc:AlternateContent")
	}
	sb.WriteString("</" + ac + ">")
}

// xmlDecl is the usual prolog.
const xmlDecl = `<?xml version="1.0" encoding="UTF-8" standalone="yes"?>` + "\n"

func (s *Style) nsDecl(p string) string {
	u := nsOf[p]
	if s.Prefixes != nil {
		if x, ok := s.Prefixes[p]; ok {
			if x == "" { // elements unprefixed, attributes still need a prefix
				return `xmlns="` + u + `" xmlns:` + p + `="` + u + `"`
			}
			p = x
		}
	}
	return "xmlns:" + p + `="` + u + `"`
}

// render spells a whole part.
func (s *Style) render(root *Node) string {
	var sb strings.Builder
	sb.WriteString(xmlDecl)
	if s.hit(s.Comment, "comment") {
		sb.WriteString("<!-- prolog -->\n")
	}
	decls := []string{}
	for _, p := range []string{"w", "r", "wp", "wps", "wpc", "wpg", "mc", "a", "pic", "z", "o", "v"} {
		if s.LocalNS && (p == "a" || p == "pic") {
			continue
		}
		decls = append(decls, s.nsDecl(p))
	}
	if s.Shuffle && s.r != nil {
		s.r.Shuffle(len(decls), func(i, j int) { decls[i], decls[j] = decls[j], decls[i] })
	}
	s.write(&sb, root, strings.Join(decls, " "))
	if s.hit(s.Comment, "comment") {
		sb.WriteString("\n<!-- epilog -->\n")
	}
	return sb.String()
}

// plainStyle spells trees in the usual compact way.
func plainStyle() *Style { return &Style{} }

// diffSig makes a stable class out of a difference: its path without indices.
func diffSig(d string) string {
	i := strings.Index(d, ": ")
	if i < 0 {
		return "?"
	}
	parts := strings.Split(d[:i], "/")
	for k := range parts {
		if j := strings.IndexByte(parts[k], '['); j >= 0 {
			rest := ""
			if a := strings.IndexByte(parts[k], '@'); a >= 0 {
				rest = parts[k][a:]
			}
			parts[k] = parts[k][:j] + rest
		}
	}
	if len(parts) > 3 {
		parts = parts[len(parts)-3:]
	}
	return strings.Join(parts, "/")
}
