package main

import (
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	docx "github.com/fumiama/go-docx"
)

// PD is one live document of a history together with its model.
type PD struct {
	*Builder
	name string
}

// Hist is a history of operations over a pool of documents.
type Hist struct {
	c    *Ctx
	pool []*PD
	n    int
	sig  string
	// weights of the operations
	W map[string]int
	// what generated documents may contain
	Setup   func(g *Gen)
	Build   func(b *Builder)
	Fresh   int // chance in 10 of a built (not parsed) document
	MaxPool int
	SepText string
	Exts    bool // pictures with other extensions, that all documents declare
	Large   int  // one in so many parsed documents is large
	large   bool // there is one
}

func (h *Hist) label() string { h.n++; return fmt.Sprintf("d%d", h.n) }

// fresh adds a new document to the pool.
func (h *Hist) fresh() *PD {
	c := h.c
	p := &PD{name: h.label()}
	if c.Intn(10) < h.Fresh && !h.Exts {
		p.Builder = c.build(c.Intn(6), h.Build)
		if c.Intn(8) == 0 && len(p.mod.Items) == 0 { // a document loaded from nothing
			p.Builder.d = docx.LoadBodyItems(nil, nil).WithDefaultTheme()
			c.Event("documents loaded")
		}
		c.Trace("%s = built, %d items", p.name, len(p.mod.Items))
		c.Event("documents built")
	} else {
		items := c.Intn(7)
		if h.Large > 0 && c.Intn(h.Large) == 0 {
			items = many(c.Rand)
			h.large = true
			c.Event("large documents")
		}
		w := newWorld(c.Rand, WorldOpt{Items: items, Images: c.Intn(4), Links: c.Intn(4), OddIDs: c.Chance(0.5), Setup: h.Setup, Types: imageFormats, ModelessLinks: true, Exts: h.Exts})
		d := c.mustOpen(w.bytes(c.Rand), "generated package")
		if d == nil {
			return nil
		}
		p.Builder = c.newBuilder()
		if h.Build != nil {
			h.Build(p.Builder)
		}
		p.d = d
		rf := w.refs()
		for _, it := range w.Doc.first("w:body").Kids {
			if it.Tag != "" {
				p.mod.Items = append(p.mod.Items, it.resolved(rf))
			}
		}
		c.Trace("%s = parsed, %d items", p.name, len(p.mod.Items))
		c.Event("documents parsed")
	}
	h.pool = append(h.pool, p)
	return p
}

// check compares a document with its model.
func (h *Hist) check(p *PD, what string) *Sound {
	c := h.c
	if n := len(p.d.Document.Body.Items); n != len(p.mod.Items) {
		c.Violate(h.sig+":items", "%s (%s): %d body items, want %d", p.name, what, n, len(p.mod.Items))
		return nil
	}
	s := c.savedOKDangling(p.d, p.name+" ("+what+")", p)
	if s == nil {
		return nil
	}
	c.compareBodies(h.sig, p.name+" ("+what+")", p.mod.body(), p.mod.Refs, s)
	c.checkUnique(s.Doc, p.name+" ("+what+")")
	return s
}

// savedOKDangling saves and runs the package monitor, tolerating references
// that had no meaning from the start.
func (c *Ctx) savedOKDangling(d *docx.Docx, what string, p *PD) *Sound {
	out := c.mustSave(d, what)
	if out == nil {
		return nil
	}
	return c.checkPackage(out, SoundOpt{AllowDangling: genDangling})
}

// genDangling are the ids the generators use for references to nothing.
var genDangling = func() map[string]bool {
	m := map[string]bool{}
	for i := 0; i < 20; i++ {
		m["rId"+strconv.Itoa(2000000900+i)] = true
		m["rId"+strconv.Itoa(2000000950+i)] = true
	}
	return m
}()

func (h *Hist) pick() *PD { return h.pool[h.c.Intn(len(h.pool))] }

// pick an operation by weight
func (h *Hist) op() string {
	t := 0
	keys := []string{"build", "edit", "append", "self", "split", "drop", "reopen", "delete", "move", "fresh", "check", "keep"}
	for _, k := range keys {
		t += h.W[k]
	}
	x := h.c.Intn(t)
	for _, k := range keys {
		if x < h.W[k] {
			return k
		}
		x -= h.W[k]
	}
	return "check"
}

// resolvedItems gives the model items of a document by content.
func (p *PD) resolvedItems() []*Node {
	r := make([]*Node, len(p.mod.Items))
	for i, it := range p.mod.Items {
		r[i] = it.resolved(p.mod.Refs)
	}
	return r
}

func copiedItems(items []*Node) []*Node {
	r := make([]*Node, len(items))
	for i, it := range items {
		r[i] = copied(it, Refs{})
	}
	return r
}

// step makes one random operation; false ends the history.
func (h *Hist) step() bool {
	c := h.c
	op := h.op()
	p := h.pick()
	switch op {
	case "fresh":
		if len(h.pool) >= h.MaxPool {
			return true
		}
		return h.fresh() != nil
	case "build":
		c.Trace("%s: build", p.name)
		p.step()
	case "edit":
		if c.Intn(3) == 0 && h.editCell(p) {
			return !c.Failed()
		}
		if c.Intn(3) == 0 && h.editRun(p) {
			return !c.Failed()
		}
		i := -1
		for k := 0; k < 5 && len(p.mod.Items) > 0; k++ {
			j := c.Intn(len(p.mod.Items))
			if p.mod.Items[j].Tag == "w:p" {
				i = j
				break
			}
		}
		if i < 0 {
			return true
		}
		q, ok := p.d.Document.Body.Items[i].(*docx.Paragraph)
		if !ok {
			c.Violate(h.sig+":items", "%s: item %d is a %T, want a paragraph", p.name, i, p.d.Document.Body.Items[i])
			return false
		}
		c.Trace("%s: edit paragraph %d", p.name, i)
		p.fill(q, p.mod.Items[i])
	case "append", "self":
		src := h.pick()
		if op == "self" {
			src = p
		}
		if n := len(p.mod.Items) + len(src.mod.Items); n > 60 && (!h.large || n > 500) {
			return true
		}
		add := copiedItems(src.resolvedItems())
		c.Trace("%s: append %s (%d items)", p.name, src.name, len(add))
		p.d.AppendFile(src.d)
		p.mod.Items = append(p.mod.Items, add...)
		if h.Large > 0 && len(add) > 0 && len(add) < 5 && src != p && c.Intn(40) == 0 { // and many times more
			k := many(c.Rand)
			c.Trace("and %d times more", k)
			c.EventN("appends again and again", k)
			h.large = true
			for ; k > 0; k-- {
				p.d.AppendFile(src.d)
				p.mod.Items = append(p.mod.Items, copiedItems(src.resolvedItems())...)
			}
		}
		c.Event("appends")
		if op == "self" || src == p {
			c.Event("self appends")
		}
		if c.Intn(3) == 0 {
			h.editBoth(p, src)
		}
		if c.Intn(3) == 0 {
			return h.check(src, "appended elsewhere") != nil
		}
	case "split":
		return h.split(p)
	case "drop":
		h.drop(p)
	case "keep":
		h.keep(p)
	case "reopen":
		s := h.check(p, "before re-opening")
		if s == nil {
			return false
		}
		b := c.mustSave(p.d, p.name)
		if b == nil {
			return false
		}
		d := c.mustOpen(b, p.name)
		if d == nil {
			return false
		}
		p.d = d
		c.Trace("%s: re-opened", p.name)
		c.Event("re-opened")
	case "delete":
		if n := len(p.mod.Items); n > 0 {
			i := c.Intn(n)
			p.d.Document.Body.Items = append(p.d.Document.Body.Items[:i:i], p.d.Document.Body.Items[i+1:]...)
			p.mod.Items = append(p.mod.Items[:i:i], p.mod.Items[i+1:]...)
			c.Trace("%s: delete item %d", p.name, i)
		}
	case "move":
		if n := len(p.mod.Items); n > 1 {
			i, j := c.Intn(n), c.Intn(n)
			b := p.d.Document.Body.Items
			b[i], b[j] = b[j], b[i]
			p.mod.Items[i], p.mod.Items[j] = p.mod.Items[j], p.mod.Items[i]
			c.Trace("%s: swap items %d and %d", p.name, i, j)
		}
	case "check":
		return h.check(p, "check") != nil
	}
	return !c.Failed()
}

// editCell writes into a cell of a table; false if there is none.
func (h *Hist) editCell(p *PD) bool {
	c := h.c
	var at []int
	for i, it := range p.mod.Items {
		if it.Tag == "w:tbl" && len(it.all("w:tr")) > 0 {
			at = append(at, i)
		}
	}
	if len(at) == 0 {
		return false
	}
	i := at[c.Intn(len(at))]
	t, ok := p.d.Document.Body.Items[i].(*docx.Table)
	trs := p.mod.Items[i].all("w:tr")
	if !ok || len(t.TableRows) != len(trs) {
		c.Violate(h.sig+":items", "%s: item %d is a %T, want a table of %d rows", p.name, i, p.d.Document.Body.Items[i], len(trs))
		return true
	}
	j := c.Intn(len(trs))
	tcs := trs[j].all("w:tc")
	if len(t.TableRows[j].TableCells) != len(tcs) {
		c.Violate(h.sig+":items", "%s: row %d of table %d has %d cells, want %d", p.name, j, i, len(t.TableRows[j].TableCells), len(tcs))
		return true
	}
	if len(tcs) == 0 {
		return false
	}
	k := c.Intn(len(tcs))
	tc, ps := t.TableRows[j].TableCells[k], tcs[k].all("w:p")
	if len(tc.Paragraphs) != len(ps) {
		c.Violate(h.sig+":items", "%s: cell %d of row %d of table %d has %d paragraphs, want %d", p.name, k, j, i, len(tc.Paragraphs), len(ps))
		return true
	}
	c.Event("cells edited")
	if len(ps) > 0 && c.Intn(2) == 0 {
		m := c.Intn(len(ps))
		c.Trace("%s: edit table %d row %d cell %d paragraph %d", p.name, i, j, k, m)
		p.fill(tc.Paragraphs[m], ps[m])
		return true
	}
	c.Trace("%s: add to table %d row %d cell %d", p.name, i, j, k)
	n := el("w:p")
	tcs[k].add(n)
	p.fill(tc.AddParagraph(), n)
	return true
}

// split splits a document at chosen paragraphs and adds pieces to the pool.
func (h *Hist) split(p *PD) bool {
	c := h.c
	sep := map[*docx.Paragraph]bool{}
	at := map[int]bool{}
	often := []int{3, 3, 3, 1, 2, 8}[c.Intn(6)]
	for i, it := range p.d.Document.Body.Items {
		if q, ok := it.(*docx.Paragraph); ok && c.Intn(often) == 0 {
			sep[q] = true
			at[i] = true
		}
	}
	asked := 0
	rule := func(q *docx.Paragraph) bool { asked++; return sep[q] }
	if c.Intn(5) == 0 { // by the text at the end, the beginning or somewhere of one of the paragraphs
		if re := h.separator(p.d); re != nil {
			for k := range at {
				delete(at, k)
			}
			for i, it := range p.d.Document.Body.Items {
				if q, ok := it.(*docx.Paragraph); ok && re.MatchString(q.String()) {
					at[i] = true
				}
			}
			rule = docx.SplitDocxByPlainTextRegex(re)
			c.Event("splits by a regular expression")
			c.Trace("%s: split by %q", p.name, short(re.String()))
		}
	}
	docs := p.d.SplitByParagraph(rule)
	c.Event("splits")
	c.EventN("separator questions", asked)
	var want [][]*Node
	items := p.resolvedItems()
	for i := range items {
		if i == 0 || at[i] {
			want = append(want, nil)
		}
		want[len(want)-1] = append(want[len(want)-1], copied(items[i], Refs{}))
	}
	c.Trace("%s: split at %v -> %d documents", p.name, len(at), len(docs))
	if len(docs) != len(want) {
		c.Violate(h.sig+":pieces", "%s: split into %d documents, want %d", p.name, len(docs), len(want))
		return false
	}
	for i, d := range docs {
		q := &PD{name: h.label(), Builder: c.newBuilder()}
		if h.Build != nil {
			h.Build(q.Builder)
		}
		q.d = d
		q.mod.Items = want[i]
		c.Trace("  %s = piece %d", q.name, i)
		c.Event("pieces")
		if h.check(q, "piece") == nil || c.Failed() {
			return false
		}
		if len(h.pool) < h.MaxPool {
			h.pool = append(h.pool, q)
		}
	}
	if c.Intn(2) == 0 {
		return h.check(p, "after being split") != nil
	}
	return true
}

// separator gives an expression for a part of the text of some paragraph, the
// longest of a few.
func (h *Hist) separator(d *docx.Docx) *regexp.Regexp {
	c := h.c
	t := ""
	for _, it := range d.Document.Body.Items {
		if q, ok := it.(*docx.Paragraph); ok && c.Intn(3) > 0 {
			if s := q.String(); len(s) > len(t) && utf8.ValidString(s) {
				t = s
			}
		}
	}
	rs := []rune(t)
	if len(rs) == 0 {
		return nil
	}
	n := 1 + c.Intn(12)
	if n > len(rs) {
		n = len(rs)
	}
	switch c.Intn(4) {
	case 0:
		return regexp.MustCompile(`\A` + regexp.QuoteMeta(string(rs[:n])))
	case 1:
		i := c.Intn(len(rs) - n + 1)
		return regexp.MustCompile(regexp.QuoteMeta(string(rs[i : i+n])))
	}
	return regexp.MustCompile(regexp.QuoteMeta(string(rs[len(rs)-n:])) + `\z`)
}

var dropKinds = []string{"Canvas", "Shape", "Group", "ShapeAndCanvas", "ShapeAndCanvasAndGroup", "NilPicture"}

// dropped is what dropping a kind of drawing makes of a run.
func dropRun(r *Node, kind string) (n int) {
	var ks []*Node
	for _, k := range r.Kids {
		if k.Tag == "w:drawing" {
			tag := ""
			if ct := k.content(); ct != nil {
				tag = ct.Tag
			}
			gone := false
			switch tag {
			case "wpc:wpc":
				gone = strings.Contains(kind, "Canvas")
			case "wps:wsp":
				gone = strings.Contains(kind, "Shape")
			case "wpg:wgp":
				gone = strings.Contains(kind, "Group")
			}
			if kind == "NilPicture" && tag != "pic:pic" {
				gone = true
			}
			if gone {
				n++
				continue
			}
		}
		ks = append(ks, k)
	}
	r.Kids = ks
	return
}

func dropPara(p *Node, kind string) (n int) {
	for _, k := range p.Kids {
		switch k.Tag {
		case "w:r":
			n += dropRun(k, kind)
		case "w:hyperlink":
			for _, r := range k.all("w:r") {
				n += dropRun(r, kind)
			}
		}
	}
	return
}

func dropItem(it *Node, kind string) (n int) {
	switch it.Tag {
	case "w:p":
		return dropPara(it, kind)
	case "w:tbl":
		for _, tr := range it.all("w:tr") {
			for _, tc := range tr.all("w:tc") {
				for _, q := range tc.all("w:p") {
					n += dropPara(q, kind)
				}
			}
		}
	}
	return
}

func callDrop(p *docx.Paragraph, kind string) {
	switch kind {
	case "Canvas":
		p.DropCanvas()
	case "Shape":
		p.DropShape()
	case "Group":
		p.DropGroup()
	case "ShapeAndCanvas":
		p.DropShapeAndCanvas()
	case "ShapeAndCanvasAndGroup":
		p.DropShapeAndCanvasAndGroup()
	case "NilPicture":
		p.DropNilPicture()
	}
}

// drop removes a kind of drawing from a whole body or one paragraph.
func (h *Hist) drop(p *PD) {
	c := h.c
	kind := dropKinds[c.Intn(len(dropKinds))]
	if c.Intn(2) == 0 {
		for k := c.Intn(6); k < 2; k++ { // names of nothing
			p.d.Document.Body.DropDrawingOf([]string{"", "Nothing", "shape", "canvas", "Pictures", "*docx.Drawing", "Shape ", "NilPictures", "\x00"}[c.Intn(9)])
		}
		p.d.Document.Body.DropDrawingOf(kind)
		if c.Intn(6) == 0 { // again
			p.d.Document.Body.DropDrawingOf(kind)
		}
		n := 0
		for _, it := range p.mod.Items {
			n += dropItem(it, kind)
		}
		c.Event("drops in a body")
		c.EventN("drawings dropped", n)
		c.Trace("%s: drop %s: %d", p.name, kind, n)
		return
	}
	for k := 0; k < 4 && len(p.mod.Items) > 0; k++ {
		i := c.Intn(len(p.mod.Items))
		q, ok := p.d.Document.Body.Items[i].(*docx.Paragraph)
		if !ok {
			continue
		}
		callDrop(q, kind)
		n := dropItem(p.mod.Items[i], kind)
		c.Event("drops in a paragraph")
		c.EventN("drawings dropped", n)
		c.Trace("%s: drop %s in paragraph %d: %d", p.name, kind, i, n)
		return
	}
}

func filterKids(n *Node, keep func(*Node) bool) {
	var ks []*Node
	for _, k := range n.Kids {
		if keep(k) {
			ks = append(ks, k)
		}
	}
	n.Kids = ks
}

// runSite is a run and its node.
type runSite struct {
	r *docx.Run
	n *Node
}

// runs lists the runs of the paragraphs and cells of a document.
func (p *PD) runs() (rs []runSite) {
	if len(p.mod.Items) != len(p.d.Document.Body.Items) {
		return nil
	}
	para := func(q *docx.Paragraph, n *Node) {
		var ns []*Node
		for _, k := range n.Kids {
			if k.Tag != "w:pPr" {
				ns = append(ns, k)
			}
		}
		if len(ns) != len(q.Children) {
			return
		}
		for j, ch := range q.Children {
			switch o := ch.(type) {
			case *docx.Run:
				if ns[j].Tag == "w:r" {
					rs = append(rs, runSite{o, ns[j]})
				}
			case *docx.Hyperlink:
				if l := ns[j].all("w:r"); len(l) == 1 {
					rs = append(rs, runSite{&o.Run, l[0]})
				}
			}
		}
	}
	for i, it := range p.d.Document.Body.Items {
		switch o := it.(type) {
		case *docx.Paragraph:
			para(o, p.mod.Items[i])
		case *docx.Table:
			trs := p.mod.Items[i].all("w:tr")
			for j, tr := range o.TableRows {
				if len(trs) != len(o.TableRows) {
					break
				}
				tcs := trs[j].all("w:tc")
				for k, tc := range tr.TableCells {
					if len(tcs) != len(tr.TableCells) {
						break
					}
					for m, q := range tc.Paragraphs {
						if qs := tcs[k].all("w:p"); len(qs) == len(tc.Paragraphs) {
							para(q, qs[m])
						}
					}
				}
			}
		}
	}
	return
}

// addTo adds to a run that is there, at its end, or formats it.
func (h *Hist) addTo(b *Builder, s runSite) {
	c := h.c
	for k := 1 + c.Intn(3); k > 0; k-- {
		if c.Intn(2) == 0 {
			b.setRun(s.r, s.n)
			c.Event("runs formatted")
		} else if c.Intn(2) == 0 {
			if s.r.AddTab() != s.r {
				c.Violate("chain", "Run.AddTab does not return its run")
			}
			s.n.add(el("w:tab"))
		} else {
			t := "added" + strconv.Itoa(c.Intn(1000))
			s.r.Children = append(s.r.Children, &docx.Text{Text: t})
			s.n.add(el("w:t", tx(t)))
		}
	}
	c.Event("runs added to")
}

// editRun adds to a run of a document.
func (h *Hist) editRun(p *PD) bool {
	rs := p.runs()
	if len(rs) == 0 {
		return false
	}
	i := h.c.Intn(len(rs))
	h.addTo(p.Builder, rs[i])
	h.c.Trace("%s: add to run %d", p.name, i)
	return true
}

// editBoth adds to runs of a document and to their copies at the end of
// another one.
func (h *Hist) editBoth(p, src *PD) {
	if p == src {
		return
	}
	a, b := p.runs(), src.runs()
	for k := 0; k < 3 && len(b) > 0 && len(a) >= len(b); k++ {
		i := h.c.Intn(len(b))
		x, y := a[len(a)-len(b)+i], b[i]
		if h.c.Intn(2) == 0 {
			x, y = y, x
		}
		h.addTo(p.Builder, x)
		h.addTo(p.Builder, y)
		h.c.Event("runs and their copies added to")
		h.c.Trace("%s, %s: add to run %d", p.name, src.name, i)
	}
}

// independent changes single fields of the documents: no other field may
// change with them.
func (h *Hist) independent() {
	c := h.c
	type field struct {
		leaf
		doc int
	}
	var ls []field
	for i, p := range h.pool {
		var l []leaf
		leaves(reflect.ValueOf(p.d.Document.Body.Items), p.name, &l)
		for _, x := range l {
			ls = append(ls, field{x, i})
		}
	}
	if len(ls) == 0 {
		return
	}
	text := func(l field) string {
		if l.v.Kind() == reflect.String {
			return l.v.String()
		}
		return strconv.FormatInt(l.v.Int(), 10)
	}
	before := make([]string, len(ls))
	same := map[uintptr]int{} // two fields of one place are of interest
	var pairs []int
	for i, l := range ls {
		before[i] = text(l)
		if j, ok := same[l.v.Addr().Pointer()]; ok {
			pairs = append(pairs, i, j)
		}
		same[l.v.Addr().Pointer()] = i
	}
	for n := 5; n > 0; n-- {
		k := c.Intn(len(ls))
		if len(pairs) > 0 {
			k = pairs[c.Intn(len(pairs))]
		}
		l := ls[k]
		if l.v.Kind() == reflect.String {
			l.v.SetString(l.v.String() + "!")
		} else {
			l.v.SetInt(l.v.Int() + 1)
		}
		before[k] = text(l)
		c.Event("fields changed in one document")
		for i, o := range ls {
			if t := text(o); t != before[i] {
				c.Violate("shared-field", "changing %s changes %s too, from %q to %q", l.path, o.path, before[i], t)
				return
			}
		}
	}
	if len(h.pool) > 1 {
		c.Event("pools of several documents with independent fields")
	}
}

// keep filters the elements of a body, a paragraph or a run.
func (h *Hist) keep(p *PD) {
	c := h.c
	sub := func(all []string) (r []string, m map[string]bool) {
		m = map[string]bool{}
		for _, a := range all {
			if c.Intn(3) > 0 {
				r = append(r, "*docx."+a)
				m[a] = true
			}
		}
		if c.Intn(6) == 0 {
			r = append(r, "*docx.Nothing")
		}
		if c.Intn(6) == 0 { // names of no kind
			r = append(r, []string{"", "*", "*docx.", "docx.Run", "Run", "Paragraph", "*docx.T", "*docx.Te", "*docx.Par", "*docx.Hyper", "*docx.run", "*docx.Text ", "Drawing", "*docx.Tabs", "*docx.Tab.", "."}[c.Intn(16)])
		}
		if len(r) > 0 && c.Intn(6) == 0 { // a name again
			for k := 1 + c.Intn(2); k > 0; k-- {
				r = append(r, r[c.Intn(len(r))])
			}
			c.Event("keep calls with a name given again")
		}
		c.Shuffle(len(r), func(i, j int) { r[i], r[j] = r[j], r[i] })
		return
	}
	c.Event("keep calls")
	switch c.Intn(4) {
	case 0:
		names, m := sub([]string{"Paragraph", "Table", "SectPr"})
		p.d.Document.Body.KeepElements(names...)
		var its []*Node
		for _, it := range p.mod.Items {
			if (it.Tag == "w:p" && m["Paragraph"]) || (it.Tag == "w:tbl" && m["Table"]) || (it.Tag == "w:sectPr" && m["SectPr"]) {
				its = append(its, it)
			}
		}
		p.mod.Items = its
		c.Trace("%s: keep %v", p.name, names)
	case 1:
		names, m := sub([]string{"Hyperlink", "Run", "RunProperties"})
		for i, it := range p.d.Document.Body.Items {
			if q, ok := it.(*docx.Paragraph); ok && c.Intn(2) == 0 {
				q.KeepElements(names...)
				filterKids(p.mod.Items[i], func(k *Node) bool {
					return k.Tag == "w:pPr" || (k.Tag == "w:hyperlink" && m["Hyperlink"]) || (k.Tag == "w:r" && m["Run"]) || (k.Tag == "w:rPr" && m["RunProperties"])
				})
			}
		}
		c.Trace("%s: keep %v in paragraphs", p.name, names)
	default:
		names, m := sub([]string{"Text", "Drawing", "Tab", "BarterRabbet"})
		for i, it := range p.d.Document.Body.Items {
			q, ok := it.(*docx.Paragraph)
			if !ok {
				continue
			}
			var rns []*Node
			for _, k := range p.mod.Items[i].Kids {
				if k.Tag != "w:pPr" {
					rns = append(rns, k)
				}
			}
			if len(rns) != len(q.Children) {
				c.Violate(h.sig+":children", "%s: paragraph %d has %d children, want %d", p.name, i, len(q.Children), len(rns))
				return
			}
			for j, ch := range q.Children {
				var r *docx.Run
				rn := rns[j]
				switch o := ch.(type) {
				case *docx.Run:
					r = o
				case *docx.Hyperlink:
					r = &o.Run
					rn = rn.first("w:r")
				}
				if r == nil || rn == nil || c.Intn(2) == 0 {
					continue
				}
				r.KeepElements(names...)
				filterKids(rn, func(k *Node) bool {
					return k.Tag == "w:rPr" || k.Tag == "w:instrText" || (k.Tag == "w:t" && m["Text"]) || (k.Tag == "w:drawing" && m["Drawing"]) || (k.Tag == "w:tab" && m["Tab"]) || (k.Tag == "w:br" && m["BarterRabbet"])
				})
			}
		}
		c.Trace("%s: keep %v in runs", p.name, names)
	}
}

// run makes a history of n operations and checks every document at the end.
func (h *Hist) run(n int) {
	if h.MaxPool == 0 {
		h.MaxPool = 5
	}
	for k := 1 + h.c.Intn(2); k > 0; k-- {
		if h.fresh() == nil {
			return
		}
	}
	for ; n > 0; n-- {
		if !h.step() {
			return
		}
	}
	for _, p := range h.pool {
		if h.check(p, "at the end") == nil || h.c.Failed() {
			return
		}
	}
	var sb strings.Builder
	for _, p := range h.pool {
		sb.WriteString(p.mod.body().canon())
	}
	if sb.Len() > 200 {
		h.c.Distinct(sb.String())
	}
	h.c.mu.Lock()
	s := strings.Join(h.c.trace, "; ")
	h.c.mu.Unlock()
	h.c.Sample(s)
}

// start makes documents without saving or checking them at the end.
func (h *Hist) start(n int) {
	if h.MaxPool == 0 {
		h.MaxPool = 5
	}
	if h.fresh() == nil {
		return
	}
	for ; n > 0; n-- {
		if !h.step() {
			return
		}
	}
}

func sortStrings(s []string) { sort.Strings(s) }
