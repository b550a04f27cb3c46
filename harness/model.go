package main

import (
	"crypto/md5"
	"encoding/hex"
	"fmt"
	"path"
	"sort"
	"strconv"
	"strings"
)

// Refs says what the relationship ids of a document stand for.
type Refs struct {
	Img map[string]string // id -> hash of the bytes
	URL map[string]string // id -> target
}

func hash(b []byte) string { s := md5.Sum(b); return hex.EncodeToString(s[:]) }

func (w *World) refs() Refs {
	r := Refs{map[string]string{}, map[string]string{}}
	for id, n := range w.Images {
		r.Img[id] = hash(w.Media[n])
	}
	for id, u := range w.Links {
		r.URL[id] = u
	}
	return r
}

func (s *Sound) refs() Refs {
	r := Refs{map[string]string{}, map[string]string{}}
	for id, x := range s.ByID {
		switch x.Type {
		case relImage:
			if b, ok := s.Pkg.get(resolveTarget(x.Target)); ok {
				r.Img[id] = hash(b)
			}
		case relLink:
			r.URL[id] = x.Target
		}
	}
	return r
}

// resolved replaces the relationship ids of a tree by what they stand for.
func (n *Node) resolved(rf Refs) *Node {
	m := n.clone()
	m.walk(func(x *Node) {
		for i := range x.Attrs {
			a := &x.Attrs[i]
			switch a.Key {
			case "r:embed":
				if strings.HasPrefix(a.Val, "image:") {
					continue
				}
				if h, ok := rf.Img[a.Val]; ok {
					a.Val = "image:" + h
				} else {
					a.Val = "nothing"
				}
			case "r:id":
				if strings.HasPrefix(a.Val, "url:") {
					continue
				}
				if u, ok := rf.URL[a.Val]; ok {
					a.Val = "url:" + u
				} else {
					a.Val = "nothing"
				}
			}
		}
	})
	return m
}

func (n *Node) del(key string) {
	for i := range n.Attrs {
		if n.Attrs[i].Key == key {
			n.Attrs = append(n.Attrs[:i:i], n.Attrs[i+1:]...)
			return
		}
	}
}

func (n *Node) change(key, val string) {
	for i := range n.Attrs {
		if n.Attrs[i].Key == key {
			n.Attrs[i].Val = val
			return
		}
	}
	n.set(key, val)
}

// frame gives the inline or anchor element of a drawing.
func (n *Node) frame() *Node {
	for _, k := range n.Kids {
		if k.Tag == "wp:inline" || k.Tag == "wp:anchor" {
			return k
		}
	}
	return nil
}

// content gives what a drawing shows: pic:pic, wps:wsp, wpc:wpc or wpg:wgp.
func (n *Node) content() *Node {
	f := n.frame()
	if f == nil {
		return nil
	}
	g := f.first("a:graphic")
	if g == nil {
		return nil
	}
	d := g.first("a:graphicData")
	if d == nil || len(d.Kids) == 0 {
		return nil
	}
	return d.Kids[0]
}

// erased forgets the ids and generated names of drawings, which the library
// is free to choose.
func (n *Node) erased() *Node {
	m := n.clone()
	m.walk(func(x *Node) {
		if x.Tag != "w:drawing" {
			return
		}
		f := x.frame()
		if f == nil {
			return
		}
		pic := x.content()
		isPic := pic != nil && pic.Tag == "pic:pic"
		if dp := f.first("wp:docPr"); dp != nil {
			dp.del("id")
			if isPic {
				dp.del("name")
				if len(dp.Attrs) == 0 && len(dp.Kids) == 0 { // one may be added
					filterKids(f, func(k *Node) bool { return k != dp })
				}
			} else if s, ok := dp.attr("name"); ok {
				dp.change("name", strings.TrimRight(s, "0123456789"))
			}
		}
		if isPic {
			if nv := pic.first("pic:nvPicPr"); nv != nil {
				if c := nv.first("pic:cNvPr"); c != nil {
					c.del("id")
					c.del("name")
				}
			}
		}
	})
	return m
}

// spaced forgets xml:space where it cannot matter: on texts that neither start
// nor end with XML white space.
func (n *Node) spaced() *Node {
	m := n.clone()
	m.walk(func(x *Node) {
		if x.Tag == "w:t" {
			if s := x.text(); s == strings.Trim(s, " \t\r\n") {
				x.del("xml:space")
			}
		}
	})
	return m
}

// xmlClean is what XML can carry of a Go string.
func xmlClean(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if r == 0x9 || r == 0xa || r == 0xd || (r >= 0x20 && r <= 0xd7ff) || (r >= 0xe000 && r <= 0xfffd) || (r >= 0x10000 && r <= 0x10ffff) {
			sb.WriteRune(r)
		} else {
			sb.WriteRune('\ufffd')
		}
	}
	return sb.String()
}

// setKid replaces the child with the same tag, or adds it.
func (n *Node) setKid(k *Node) *Node {
	for i := range n.Kids {
		if n.Kids[i].Tag == k.Tag {
			n.Kids[i] = k
			return k
		}
	}
	n.Kids = append(n.Kids, k)
	return k
}

// getKid gets the child with the tag, made if missing.
func (n *Node) getKid(tag string) *Node {
	if k := n.first(tag); k != nil {
		return k
	}
	k := el(tag)
	n.Kids = append(n.Kids, k)
	return k
}

// copied is what splitting and appending make of a paragraph or table: the
// same, except that what refers to nothing loses the reference.
func copied(n *Node, rf Refs) *Node {
	m := n.clone()
	var fixRun func(r *Node)
	fixRun = func(r *Node) {
		for i, k := range r.Kids {
			if k.Tag != "w:drawing" {
				continue
			}
			p := k.content()
			if p == nil {
				r.Kids[i] = el("w:drawing")
				continue
			}
			if p.Tag != "pic:pic" {
				continue
			}
			if _, ok := rf.Img[p.embed()]; !ok && !strings.HasPrefix(p.embed(), "image:") {
				r.Kids[i] = el("w:drawing")
			}
		}
	}
	para := func(p *Node) {
		for i, k := range p.Kids {
			switch k.Tag {
			case "w:r":
				fixRun(k)
			case "w:hyperlink":
				for _, r := range k.all("w:r") {
					fixRun(r)
				}
				id, ok := k.attr("r:id")
				if !ok {
					continue
				}
				if _, ok := rf.URL[id]; !ok && !strings.HasPrefix(id, "url:") {
					p.Kids[i] = k.first("w:r")
				}
			}
		}
	}
	switch m.Tag {
	case "w:p":
		para(m)
	case "w:tbl":
		for _, tr := range m.all("w:tr") {
			for _, tc := range tr.all("w:tc") {
				for _, p := range tc.all("w:p") {
					para(p)
				}
			}
		}
	}
	return m
}

// embed gives the relationship id of a picture.
func (n *Node) embed() string {
	bf := n.first("pic:blipFill")
	if bf == nil {
		return ""
	}
	b := bf.first("a:blip")
	if b == nil {
		return ""
	}
	return b.get("r:embed")
}

// bodyOf makes a body of items.
func bodyOf(items []*Node) *Node { return el("w:body", items...) }

// docPrIDs lists the drawing ids of a tree, in order.
func docPrIDs(n *Node) (ids []string) {
	n.walk(func(x *Node) {
		if x.Tag == "wp:docPr" {
			ids = append(ids, x.get("id"))
		}
	})
	return
}

// checkUnique reports drawing ids used more than once in a document.
func (c *Ctx) checkUnique(doc *Node, what string) {
	seen := map[string]bool{}
	for _, id := range docPrIDs(doc) {
		if seen[id] {
			c.Violate("docpr-dup", "%s: drawing id %q is used twice", what, id)
		}
		seen[id] = true
	}
	c.EventN("drawing ids checked", len(seen))
}

// compareBodies is the usual comparison: content resolved, ids erased.
func (c *Ctx) compareBodies(sig, what string, want *Node, wantRefs Refs, s *Sound) bool {
	a := want.resolved(wantRefs).erased().spaced()
	b := s.body().resolved(s.refs()).erased().spaced()
	c.Event("bodies compared")
	c.EventN("elements compared", a.count())
	if df := diffTrees(a, b); df != "" {
		c.ViolateD(sig+":"+diffSig(df), a.str(), "%s: %s", what, df)
		return false
	}
	return true
}

// plainText is the rendering of a paragraph.
func plainText(p *Node, rf Refs, md map[string][]byte) string {
	var sb strings.Builder
	run := func(r *Node) {
		for _, k := range r.Kids {
			switch k.Tag {
			case "w:t":
				sb.WriteString(k.text())
			case "w:tab":
				sb.WriteByte('\t')
			case "w:br":
				sb.WriteByte('\n')
			case "w:drawing":
				sb.WriteString(drawText(k, rf))
			}
		}
	}
	for _, k := range p.Kids {
		switch k.Tag {
		case "w:r":
			run(k)
		case "w:hyperlink":
			sb.WriteByte('[')
			in := ""
			for _, r := range k.all("w:r") {
				if i := r.first("w:instrText"); i != nil {
					in = i.text()
				}
			}
			sb.WriteString(in)
			for _, r := range k.all("w:r") {
				run(r)
			}
			sb.WriteString("](")
			id, ok := k.attr("r:id")
			if !ok {
				id = k.get("w:anchor")
			}
			if u, ok := rf.URL[id]; ok {
				sb.WriteString(u)
			} else {
				sb.WriteString(id)
			}
			sb.WriteByte(')')
		}
	}
	_ = md
	return sb.String()
}

func drawText(d *Node, rf Refs) string {
	f := d.frame()
	if f == nil {
		return ""
	}
	p := "inln"
	if f.Tag == "wp:anchor" {
		p = "anch"
	}
	name, named := "", false
	if dp := f.first("wp:docPr"); dp != nil {
		name, named = dp.get("name"), true
	}
	ct := d.content()
	if ct == nil {
		return "![" + p + "?](unknown)"
	}
	switch ct.Tag {
	case "pic:pic":
		if !named {
			if nv := ct.first("pic:nvPicPr"); nv != nil {
				if cn := nv.first("pic:cNvPr"); cn != nil {
					name = cn.get("name")
				}
			} else {
				name = ct.embed()
			}
		}
		h, ok := rf.Img[ct.embed()]
		if !ok {
			h = "\x00" // whatever is said about a missing image
		}
		return "![" + p + "im " + name + "](" + h + ")"
	case "wps:wsp":
		prst := ""
		sp := ct.first("wps:spPr")
		if sp != nil {
			prst = sp.first("a:prstGeom").get("prst")
		}
		if !named {
			if cn := ct.first("wps:cNvPr"); cn != nil {
				name = cn.get("name")
			} else if sp != nil {
				name = prst
			} else {
				name = "nil"
			}
		}
		return "![" + p + "sp " + name + "](" + prst + ")"
	case "wpc:wpc":
		if !named {
			name = "nil"
		}
		return "![" + p + "cv " + name + "]()"
	}
	return "![" + p + "?](unknown)"
}

// tableText is the rendering of a table.
func tableText(t *Node, rf Refs) string {
	rows := t.all("w:tr")
	if len(rows) == 0 || len(rows[0].all("w:tc")) == 0 {
		return ""
	}
	var sb strings.Builder
	sb.WriteString("| " + strings.Repeat(" :----: |", len(rows[0].all("w:tc"))))
	for _, r := range rows {
		sb.WriteString("\n|")
		for _, tc := range r.all("w:tc") {
			ps := tc.all("w:p")
			n := 0
			if len(ps) > 0 {
				for _, k := range ps[0].Kids {
					if k.Tag != "w:pPr" {
						n++
					}
				}
			}
			if n > 0 {
				sb.WriteString(" " + plainText(ps[0], rf, nil))
			} else {
				sb.WriteString("       ")
			}
			sb.WriteString(" |")
		}
	}
	return sb.String()
}

// matchPattern compares a rendering with a model in which \x00 stands for any
// text without a closing parenthesis.
func matchPattern(want, got string) bool {
	parts := strings.Split(want, "\x00")
	if len(parts) == 1 {
		return want == got
	}
	for i, p := range parts {
		if !strings.HasPrefix(got, p) {
			return false
		}
		got = got[len(p):]
		if i < len(parts)-1 {
			j := strings.IndexByte(got, ')')
			if j < 0 {
				return false
			}
			got = got[j:]
		}
	}
	return got == ""
}

// parts compares all parts of two packages except the given ones.
func (c *Ctx) sameParts(sig, what string, want map[string][]byte, pk *Pkg, except map[string]bool) {
	names := make([]string, 0, len(want))
	for n := range want {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if except[n] {
			continue
		}
		b, ok := pk.get(n)
		if !ok {
			c.Violate(sig, "%s: part %q is missing", what, n)
			continue
		}
		c.Event("parts compared")
		if string(b) != string(want[n]) {
			c.Violate(sig, "%s: part %q has %d bytes (%s), want %d bytes (%s)", what, n, len(b), hash(b), len(want[n]), hash(want[n]))
		}
	}
	for _, x := range pk.Parts {
		if _, ok := want[x.Name]; !ok && !except[x.Name] {
			c.Violate(sig, "%s: part %q appeared", what, x.Name)
		}
	}
}

func (p *Pkg) asMap() map[string][]byte {
	m := map[string][]byte{}
	for _, x := range p.Parts {
		if !strings.HasSuffix(x.Name, "/") {
			m[x.Name] = x.Data
		}
	}
	return m
}

var _ = fmt.Sprint
var _ = path.Base
var _ = strconv.Itoa
