package main

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"

	docx "github.com/fumiama/go-docx"
)

func init() {
	register(&Prop{ID: "C23", Quick: 28000, Deep: 300000, Run: runC23,
		Rule: "opened documents over the whole vocabulary in which paragraphs, runs, texts, links, pictures, tables, rows, cells and the contents of text boxes, chosen at random at any depth, are edited through the API (formatting, adding, resizing) and through the exported fields (replacing, inserting, removing, exchanging and copying of elements, changing single fields); the saved document must be the opened one with exactly these edits; non-trivial: at least 4 edits at 3 or more places",
		Need: map[string]int{"edits": 10000, "documents compared": 4000, "edits in tables": 1500, "edits in text boxes": 800, "edits of text": 1000, "edits of drawings": 300, "fields changed": 2000, "edits before fields are changed": 3000}})
}

// site is a place where something can be edited: the element and its node.
type site struct {
	v     interface{}
	n     *Node
	where string
	box   bool
	table bool
}

func elemKids(n *Node, tags ...string) (ks []*Node) {
	for _, k := range n.Kids {
		for _, t := range tags {
			if k.Tag == t {
				ks = append(ks, k)
			}
		}
	}
	return
}

// sites pairs the elements of a document with the nodes of its model.
func (c *Ctx) sites(items []interface{}, nodes []*Node) (ss []site) {
	bad := func(where string, a, b int) {
		c.Violate("pairing", "%s: %d elements, the document has %d", where, a, b)
	}
	var para func(p *docx.Paragraph, n *Node, where string, box, tab bool)
	var run func(r *docx.Run, n *Node, where string, box, tab bool)
	var shape func(v reflect.Value, n *Node, where string, tab bool)
	shape = func(v reflect.Value, n *Node, where string, tab bool) {
		// text boxes, in the order of the document
		var boxes []*Node
		var find func(n *Node)
		find = func(n *Node) {
			for _, k := range n.Kids {
				if k.Tag == "w:txbxContent" {
					boxes = append(boxes, k)
				} else {
					find(k)
				}
			}
		}
		find(n)
		i := 0
		var walk func(v reflect.Value)
		walk = func(v reflect.Value) {
			switch v.Kind() {
			case reflect.Ptr, reflect.Interface:
				if !v.IsNil() {
					walk(v.Elem())
				}
			case reflect.Slice:
				for j := 0; j < v.Len(); j++ {
					walk(v.Index(j))
				}
			case reflect.Struct:
				if t, ok := v.Interface().(docx.WTextBoxContent); ok {
					if i >= len(boxes) {
						bad(where+" text boxes", i+1, len(boxes))
						return
					}
					ps := boxes[i].all("w:p")
					i++
					if len(ps) != len(t.Paragraphs) {
						bad(where+" text box paragraphs", len(t.Paragraphs), len(ps))
						return
					}
					for j := range t.Paragraphs {
						para(&t.Paragraphs[j], ps[j], fmt.Sprintf("%s box %d.%d", where, i, j), true, tab)
					}
					return
				}
				for j := 0; j < v.NumField(); j++ {
					if v.Type().Field(j).PkgPath == "" {
						walk(v.Field(j))
					}
				}
			}
		}
		walk(v)
	}
	run = func(r *docx.Run, n *Node, where string, box, tab bool) {
		ss = append(ss, site{r, n, where, box, tab})
		ks := elemKids(n, "w:t", "w:tab", "w:br", "w:drawing")
		if len(ks) != len(r.Children) {
			bad(where, len(r.Children), len(ks))
			return
		}
		for i, x := range r.Children {
			w := fmt.Sprintf("%s/%d", where, i)
			switch o := x.(type) {
			case *docx.Text:
				ss = append(ss, site{o, ks[i], w, box, tab})
			case *docx.Drawing:
				ss = append(ss, site{o, ks[i], w, box, tab})
				shape(reflect.ValueOf(o), ks[i], w, tab)
			}
		}
	}
	para = func(p *docx.Paragraph, n *Node, where string, box, tab bool) {
		ss = append(ss, site{p, n, where, box, tab})
		ks := elemKids(n, "w:r", "w:hyperlink", "w:rPr")
		if len(ks) != len(p.Children) {
			bad(where, len(p.Children), len(ks))
			return
		}
		for i, x := range p.Children {
			w := fmt.Sprintf("%s run %d", where, i)
			switch o := x.(type) {
			case *docx.Run:
				run(o, ks[i], w, box, tab)
			case *docx.Hyperlink:
				ss = append(ss, site{o, ks[i], w, box, tab})
				if rs := ks[i].all("w:r"); len(rs) == 1 {
					run(&o.Run, rs[0], w, box, tab)
				}
			}
		}
	}
	if len(items) != len(nodes) {
		bad("the body", len(items), len(nodes))
		return
	}
	for i, it := range items {
		where := fmt.Sprintf("item %d", i)
		switch o := it.(type) {
		case *docx.Paragraph:
			para(o, nodes[i], where, false, false)
		case *docx.Table:
			ss = append(ss, site{o, nodes[i], where, false, true})
			rows := nodes[i].all("w:tr")
			if len(rows) != len(o.TableRows) {
				bad(where, len(o.TableRows), len(rows))
				return
			}
			for j, r := range o.TableRows {
				ss = append(ss, site{r, rows[j], fmt.Sprintf("%s row %d", where, j), false, true})
				cells := rows[j].all("w:tc")
				if len(cells) != len(r.TableCells) {
					bad(where+" cells", len(r.TableCells), len(cells))
					return
				}
				for k, tc := range r.TableCells {
					w := fmt.Sprintf("%s cell %d.%d", where, j, k)
					ss = append(ss, site{tc, cells[k], w, false, true})
					ps := cells[k].all("w:p")
					if len(ps) != len(tc.Paragraphs) {
						bad(w, len(tc.Paragraphs), len(ps))
						return
					}
					for m, p := range tc.Paragraphs {
						para(p, ps[m], fmt.Sprintf("%s paragraph %d", w, m), false, true)
					}
				}
			}
		}
	}
	return
}

// nthKid is the place of the i-th of some children among all.
func nthKid(n *Node, i int, tags ...string) int {
	ks := elemKids(n, tags...)
	for j, k := range n.Kids {
		if i < len(ks) && k == ks[i] {
			return j
		}
	}
	return len(n.Kids)
}

func (n *Node) cut(i int) { n.Kids = append(n.Kids[:i:i], n.Kids[i+1:]...) }
func (n *Node) insert(i int, k *Node) {
	n.Kids = append(n.Kids[:i:i], append([]*Node{k}, n.Kids[i:]...)...)
}

// restructure changes a slice of children and the nodes in the same way.
func (c *Ctx) restructure(list reflect.Value, n *Node, mk func() (interface{}, *Node), tags ...string) string {
	k := list.Len()
	op := c.Intn(4)
	if k == 0 || (k == 1 && op == 1) {
		op = 3
	}
	switch op {
	case 0: // remove
		i := c.Intn(k)
		nl := reflect.MakeSlice(list.Type(), 0, k)
		nl = reflect.AppendSlice(nl, list.Slice(0, i))
		nl = reflect.AppendSlice(nl, list.Slice(i+1, k))
		list.Set(nl)
		n.cut(nthKid(n, i, tags...))
		return "remove"
	case 1: // exchange
		i, j := c.Intn(k), c.Intn(k)
		x, y := list.Index(i).Interface(), list.Index(j).Interface()
		list.Index(i).Set(reflect.ValueOf(y))
		list.Index(j).Set(reflect.ValueOf(x))
		a, b := nthKid(n, i, tags...), nthKid(n, j, tags...)
		n.Kids[a], n.Kids[b] = n.Kids[b], n.Kids[a]
		return "exchange"
	}
	x, nd := mk()
	i := c.Intn(k + 1)
	nl := reflect.MakeSlice(list.Type(), 0, k+1)
	nl = reflect.AppendSlice(nl, list.Slice(0, i))
	nl = reflect.Append(nl, reflect.ValueOf(x))
	nl = reflect.AppendSlice(nl, list.Slice(i, k))
	list.Set(nl)
	n.insert(nthKid(n, i, tags...), nd)
	return "insert"
}

// textElem makes a text.
func (c *Ctx) textElem() (*docx.Text, *Node) {
	s := fmt.Sprintf("new %d <&>", c.Intn(1000))
	return &docx.Text{Text: s}, el("w:t", tx(s))
}

// editSite makes one edit.
func (b *Builder) editSite(s site) (what string) {
	c := b.c
	switch o := s.v.(type) {
	case *docx.Text:
		t := strings.TrimSpace(xmlClean(b.textValue()))
		t = strings.Trim(t, " \t\r\n")
		o.Text = t
		s.n.Kids = nil
		if t != "" {
			s.n.add(tx(t))
		}
		c.Event("edits of text")
		return "text"
	case *docx.Run:
		switch c.Intn(8) {
		case 0, 1, 2, 3:
			b.setRun(o, s.n)
			return "set run"
		case 4:
			// what is dropped from a copy stays in the original
			cp := *o
			cp.KeepElements([]string{"*docx.Text", "*docx.Tab", "*docx.Drawing"}[c.Intn(3)])
			return "drop from a copy of the run"
		}
		return "run: " + c.restructure(reflect.ValueOf(&o.Children).Elem(), s.n, func() (interface{}, *Node) {
			switch c.Intn(4) {
			case 0:
				return &docx.Tab{}, el("w:tab")
			case 1:
				return &docx.BarterRabbet{Type: "column"}, el("w:br").set("w:type", "column")
			}
			t, n := c.textElem()
			return t, n
		}, "w:t", "w:tab", "w:br", "w:drawing")
	case *docx.Hyperlink:
		if id, ok := s.n.attr("w:anchor"); ok && s.n.get("r:id") == "" {
			// to another bookmark
			id += "x"
			o.Anchor, o.ID = id, id
			s.n.change("w:anchor", id)
			return "bookmark"
		}
		return ""
	case *docx.Paragraph:
		// what was made by hand belongs to no document that could hold links
		b.NoLink, b.NoDraw = b.bare[s.v], b.bare[s.v]
		defer func() { b.NoLink, b.NoDraw = false, false }()
		switch c.Intn(5) {
		case 4:
			cp := *o
			cp.KeepElements([]string{"*docx.Run", "*docx.Hyperlink", "*docx.RunProperties"}[c.Intn(3)])
			return "drop from a copy of the paragraph"
		case 0:
			b.setPara(o, s.n)
			return "set paragraph"
		case 1:
			b.fill(o, s.n)
			return "fill paragraph"
		}
		return "paragraph: " + c.restructure(reflect.ValueOf(&o.Children).Elem(), s.n, func() (interface{}, *Node) {
			t, n := c.textElem()
			r := &docx.Run{Children: []interface{}{t}}
			if c.Intn(2) == 0 {
				r.RunProperties = &docx.RunProperties{Bold: &docx.Bold{}, Color: &docx.Color{Val: "123456"}}
				return r, el("w:r", el("w:rPr", el("w:b"), el("w:color").set("w:val", "123456")), n)
			}
			return r, el("w:r", n)
		}, "w:r", "w:hyperlink", "w:rPr")
	case *docx.Drawing:
		fr := s.n.frame()
		if fr == nil {
			return ""
		}
		var set func(w, h int64)
		switch {
		case o.Inline != nil:
			set = o.Inline.Size
		case o.Anchor != nil:
			set = o.Anchor.Size
		default:
			return ""
		}
		w, h := int64(1+c.Intn(9000000)), int64(1+c.Intn(9000000))
		set(w, h)
		cx, cy := strconv.FormatInt(w, 10), strconv.FormatInt(h, 10)
		if e := fr.first("wp:extent"); e != nil {
			e.change("cx", cx)
			e.change("cy", cy)
		}
		if ct := s.n.content(); ct != nil && ct.Tag == "pic:pic" {
			if sp := ct.first("pic:spPr"); sp != nil {
				if x := sp.first("a:xfrm"); x != nil {
					if e := x.first("a:ext"); e != nil {
						e.change("cx", cx)
						e.change("cy", cy)
					}
				}
			}
		}
		c.Event("edits of drawings")
		return "size"
	case *docx.Table:
		if c.Intn(3) == 0 {
			v := b.value()
			o.Justification(v)
			s.n.getKid("w:tblPr").setKid(el("w:jc").set("w:val", cleanAttr(v)))
			return "table justification"
		}
		return "table: " + c.restructure(reflect.ValueOf(&o.TableRows).Elem(), s.n, func() (interface{}, *Node) {
			t, n := c.textElem()
			p := &docx.Paragraph{Children: []interface{}{&docx.Run{Children: []interface{}{t}}}}
			tc := &docx.WTableCell{Paragraphs: []*docx.Paragraph{p}}
			b.bare[p], b.bare[tc] = true, true
			return &docx.WTableRow{TableCells: []*docx.WTableCell{tc}},
				el("w:tr", el("w:tc", el("w:p", el("w:r", n))))
		}, "w:tr")
	case *docx.WTableRow:
		if c.Intn(3) == 0 {
			v := b.value()
			o.Justification(v)
			s.n.getKid("w:trPr").setKid(el("w:jc").set("w:val", cleanAttr(v)))
			return "row justification"
		}
		return "row: " + c.restructure(reflect.ValueOf(&o.TableCells).Elem(), s.n, func() (interface{}, *Node) {
			tc := &docx.WTableCell{TableCellProperties: &docx.WTableCellProperties{VAlign: &docx.WVerticalAlignment{Val: "bottom"}}}
			b.bare[tc] = true
			return tc,
				el("w:tc", el("w:tcPr", el("w:vAlign").set("w:val", "bottom")))
		}, "w:tc")
	case *docx.WTableCell:
		switch c.Intn(4) {
		case 0:
			v, w, x := b.value(), b.value(), b.value()
			o.Shade(v, w, x)
			s.n.getKid("w:tcPr").setKid(optAttr(optAttr(optAttr(el("w:shd"), "w:val", v), "w:color", w), "w:fill", x))
			return "cell shade"
		case 1:
			p := o.AddParagraph()
			b.bare[p] = b.bare[o]
			b.NoLink, b.NoDraw = b.bare[o], b.bare[o]
			n := el("w:p")
			s.n.add(n)
			b.fill(p, n)
			b.NoLink, b.NoDraw = false, false
			return "cell paragraph"
		}
		return "cell: " + c.restructure(reflect.ValueOf(&o.Paragraphs).Elem(), s.n, func() (interface{}, *Node) {
			t, n := c.textElem()
			p := &docx.Paragraph{Children: []interface{}{&docx.Run{Children: []interface{}{t}}}}
			b.bare[p] = true
			return p, el("w:p", el("w:r", n))
		}, "w:p")
	}
	return ""
}

// leaf is one string or number in the exported fields.
type leaf struct {
	v    reflect.Value
	path string
}

func leaves(v reflect.Value, path string, ls *[]leaf) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			leaves(v.Elem(), path, ls)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			leaves(v.Index(i), path+"."+strconv.Itoa(i), ls)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.PkgPath != "" || f.Name == "XMLName" || fillURI[f.Name] != "" {
				continue
			}
			key := v.Type().Name() + "." + f.Name
			switch key {
			case "Hyperlink.ID", "Hyperlink.Anchor", "ABlip.Embed", "Text.XMLSpace", "Run.Space", "Run.InstrText":
				continue
			case "Tab.Val", "Tab.Position":
				if strings.Contains(path, "Run") && !strings.Contains(path[strings.LastIndex(path, "Run"):], "Tabs") {
					continue
				}
			}
			leaves(v.Field(i), path+"/"+key, ls)
		}
	case reflect.String, reflect.Int, reflect.Int64:
		*ls = append(*ls, leaf{v, path})
	}
}

func runC23(c *Ctx) {
	h := &Hist{c: c, sig: "edit", Fresh: 0, MaxPool: 1}
	p := h.fresh()
	if p == nil {
		return
	}
	if c.Intn(3) == 0 {
		if c.Intn(2) == 0 { // after edits
			p.bare = map[interface{}]bool{}
			many := c.Intn(2) // with few different values
			for i := 1 + c.Intn(12+30*many); i > 0; i-- {
				ss := c.sites(p.d.Document.Body.Items, p.mod.Items)
				if c.Failed() || len(ss) == 0 {
					return
				}
				s := ss[c.Intn(len(ss))]
				w := ""
				if many == 1 {
					p.fixed = usual[c.Intn(4)]
				}
				ok := c.guard("panic:edit", "editing "+s.where, func() {
					switch o := s.v.(type) {
					case *docx.Paragraph:
						if many == 1 {
							p.setPara(o, s.n)
							w = "set paragraph"
							return
						}
					case *docx.Run:
						if many == 1 {
							p.setRun(o, s.n)
							w = "set run"
							return
						}
					}
					w = p.editSite(s)
				})
				p.fixed = ""
				if !ok {
					return
				}
				c.Trace("%s: %s", s.where, w)
				c.Event("edits before fields are changed")
			}
		}
		c.changeFields(p)
		return
	}
	p.bare = map[interface{}]bool{}
	done := map[string]bool{}
	n := 1 + c.Intn(8)
	var log []string
	for i := 0; i < n && !c.Failed(); i++ {
		ss := c.sites(p.d.Document.Body.Items, p.mod.Items)
		if c.Failed() {
			return
		}
		if len(ss) == 0 {
			break
		}
		if c.Intn(10) == 0 {
			cp := p.d.Document.Body
			cp.KeepElements([]string{"*docx.Paragraph", "*docx.Table"}[c.Intn(2)])
			log = append(log, "drop from a copy of the body")
		}
		s := ss[c.Intn(len(ss))]
		for k := 0; k < 4; k++ { // prefer the rarer
			x := ss[c.Intn(len(ss))]
			if _, ok := x.v.(*docx.Drawing); ok || x.box {
				s = x
			}
		}
		if s.box { // its paragraphs have no document when they are made by hand
			c.Event("edits in text boxes")
		}
		if s.table {
			c.Event("edits in tables")
		}
		w := ""
		if !c.guard("panic:edit", "editing "+s.where, func() { w = p.editSite(s) }) {
			return
		}
		if w == "" {
			continue
		}
		c.Event("edits")
		c.Trace("%s: %s", s.where, w)
		log = append(log, s.where+": "+w)
		done[s.where] = true
	}
	if len(log) >= 4 && len(done) >= 3 {
		c.Distinct(strings.Join(log, ";") + p.mod.body().canon())
	}
	c.Sample(strings.Join(log, "; "))
	c.Event("documents compared")
	h.check(p, "edited")
}

// changeFields changes single fields of an opened document: after saving and
// opening exactly these differ.
func (c *Ctx) changeFields(p *PD) {
	items := p.d.Document.Body.Items
	var ls []leaf
	leaves(reflect.ValueOf(items), "", &ls)
	if len(ls) == 0 {
		return
	}
	text := func(l leaf) string { return fmt.Sprint(l.v.Interface()) }
	before := make([]string, len(ls))
	for i, l := range ls {
		before[i] = text(l)
	}
	f := &Filler{c: c}
	var log []string
	same := map[uintptr]int{} // two fields of one place are of interest
	pair := -1
	for i, l := range ls {
		if l.v.Type().Size() > 0 {
			if _, ok := same[l.v.Addr().Pointer()]; ok {
				pair = i
			}
			same[l.v.Addr().Pointer()] = i
		}
	}
	for n := 1 + c.Intn(4); n > 0; n-- {
		k := c.Intn(len(ls))
		if pair >= 0 {
			k = pair
		}
		l := ls[k]
		if l.v.Kind() == reflect.String {
			s := f.str("changed")
			if strings.HasSuffix(l.path, "Text.Text") {
				s = strings.Trim(s, " \t\r\n") + "."
			}
			l.v.SetString(s)
		} else {
			l.v.SetInt(f.num(64))
		}
		c.Event("fields changed")
		before[k] = text(l)
		for i, o := range ls {
			if t := text(o); t != before[i] {
				c.Violate("shared-field", "changing %s to %q changes %s too, from %q to %q", l.path, before[k], o.path, before[i], t)
				return
			}
		}
		log = append(log, fmt.Sprintf("%s = %v", l.path, l.v.Interface()))
	}
	c.Sample(strings.Join(log, "; "))
	want := dumpSkip(items, skipXML)
	out := c.mustSave(p.d, "edited document")
	if out == nil {
		return
	}
	d := c.mustOpen(out, "edited document")
	if d == nil {
		return
	}
	c.Event("documents compared")
	got := dumpSkip(d.Document.Body.Items, skipXML)
	if df := firstDiff(want, got); df != "" {
		c.ViolateD("field:"+fieldSig(want, got), strings.Join(log, "\n")+"\n"+want, "after changing %v: %s", log, df)
	}
	c.Distinct(want)
}
