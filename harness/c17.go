package main

import (
	"fmt"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	docx "github.com/fumiama/go-docx"
)

func init() {
	register(&Prop{ID: "C17", Quick: 16000, Deep: 250000, Run: runC17,
		Rule: "the plain text of every paragraph and table of generated packages (also with links of several runs, references to nothing, links to bookmarks, drawings of all kinds) and of documents made by random histories of builder calls, appends, splits and re-opening, compared with an independent rendering of the source or saved document; printing must change nothing and be repeatable, and the regular expression rule must accept exactly the paragraphs whose text matches; non-trivial: at least 3 paragraphs or tables rendered",
		Need: map[string]int{"paragraphs rendered": 20000, "tables rendered": 5000, "pictures rendered": 3000, "links rendered": 2000, "rule decisions": 20000, "texts replaced and rendered again": 10000, "documents made by hand": 500}})
}

// rendered compares the texts of the items of a document with a model tree.
func (c *Ctx) rendered(sig, what string, d *docx.Docx, body *Node, rf Refs) (n int) {
	var kids []*Node
	for _, k := range body.Kids {
		if k.Tag != "" {
			kids = append(kids, k)
		}
	}
	items := d.Document.Body.Items
	if len(items) != len(kids) {
		c.Violate(sig+":items", "%s: %d body items, want %d", what, len(items), len(kids))
		return
	}
	var re *regexp.Regexp
	pick := []string{"[a-z]", "t[0-9]*7", "^$", "\\]\\(", "!\\[", "\t", "(?s)^.{3,9}$", "\n"}[c.Intn(8)]
	re = regexp.MustCompile(pick)
	rule := docx.SplitDocxByPlainTextRegex(re)
	para := func(p *docx.Paragraph, pn *Node, where string) {
		n++
		c.Event("paragraphs rendered")
		var got string
		if !c.guard("panic:string", "the text of "+where, func() { got = p.String() }) {
			return
		}
		want := plainText(pn, rf, nil)
		if !matchPattern(want, xmlClean(got)) {
			c.ViolateD(sig, pn.str(), "%s, %s: the text is %q, want %q", what, where, short(got), short(want))
			return
		}
		c.EventN("pictures rendered", strings.Count(want, "im ")+strings.Count(want, "sp ")+strings.Count(want, "cv "))
		c.EventN("links rendered", strings.Count(want, "]("))
		if again := p.String(); again != got {
			c.Violate(sig+":repeat", "%s, %s: the text is %q at first and then %q", what, where, short(got), short(again))
		}
		if r := rule(p); r != re.MatchString(got) {
			c.Violate(sig+":rule", "%s, %s: the rule for %q says %v of the text %q", what, where, pick, r, short(got))
		}
		c.Event("rule decisions")
	}
	for i, it := range items {
		where := fmt.Sprintf("item %d", i)
		switch o := it.(type) {
		case *docx.Paragraph:
			if kids[i].Tag != "w:p" {
				c.Violate(sig+":items", "%s: item %d is a paragraph, want %s", what, i, kids[i].Tag)
				return
			}
			para(o, kids[i], where)
		case *docx.Table:
			if kids[i].Tag != "w:tbl" {
				c.Violate(sig+":items", "%s: item %d is a table, want %s", what, i, kids[i].Tag)
				return
			}
			n++
			c.Event("tables rendered")
			var got string
			if !c.guard("panic:string", "the text of "+where, func() { got = o.String() }) {
				return
			}
			if want := tableText(kids[i], rf); !matchPattern(want, xmlClean(got)) {
				c.ViolateD(sig+":table", kids[i].str(), "%s, %s: the table is %q, want %q", what, where, short(got), short(want))
				return
			}
			rows := kids[i].all("w:tr")
			for j, r := range o.TableRows {
				if j >= len(rows) {
					break
				}
				cells := rows[j].all("w:tc")
				for k, tc := range r.TableCells {
					if k >= len(cells) {
						break
					}
					ps := cells[k].all("w:p")
					for m, p := range tc.Paragraphs {
						if m < len(ps) {
							para(p, ps[m], fmt.Sprintf("item %d row %d cell %d paragraph %d", i, j, k, m))
						}
					}
				}
			}
		}
	}
	return
}

// retext replaces texts, half of them by others of the same length.
func (c *Ctx) retext(items []interface{}, body *Node) (n int) {
	var kids []*Node
	for _, k := range body.Kids {
		if k.Tag != "" {
			kids = append(kids, k)
		}
	}
	for _, s := range c.sites(items, kids) {
		o, ok := s.v.(*docx.Text)
		if !ok || c.Intn(3) == 0 {
			continue
		}
		t := strconv.Itoa(c.Intn(1000)) + "new"
		if c.Intn(2) == 0 {
			t = strings.Map(func(r rune) rune {
				if r >= 'a' && r < 'z' || r >= '0' && r < '9' {
					return r + 1
				}
				return r
			}, o.Text)
		}
		o.Text = t
		s.n.Kids = nil
		if t != "" {
			s.n.add(tx(t))
		}
		n++
		c.Event("texts replaced and rendered again")
	}
	return
}

// byHand renders what belongs to no document, and copies it.
func (c *Ctx) byHand() {
	d := docx.New().WithDefaultTheme()
	f := &Filler{c: c, left: 20 + c.Intn(80), paths: map[string]bool{}, Embeds: []string{"rId70", "rId77"}, Links: []string{"rId79"}, sparse: c.Intn(2) == 0}
	for n := 1 + c.Intn(4); n > 0; n-- {
		var x interface{} = &docx.Paragraph{}
		if c.Intn(4) == 0 {
			x = &docx.Table{}
		}
		f.fill(reflect.ValueOf(x).Elem(), reflect.TypeOf(x).Elem().Name(), 0)
		d.Document.Body.Items = append(d.Document.Body.Items, x)
	}
	out := c.mustSave(d, "document made by hand")
	if out == nil {
		return
	}
	s, err := docOf(out)
	if err != nil {
		c.Violate("malformed", "document made by hand: %v", err)
		return
	}
	c.Event("documents made by hand")
	c.rendered("text-handmade", "made by hand", d, s.first("w:body"), Refs{})
	if c.Failed() {
		return
	}
	c.guard("panic:split", "splitting a document made by hand", func() {
		for _, q := range d.SplitByParagraph(docx.SplitDocxByPlainTextRegex(regexp.MustCompile("[a-z]"))) {
			for _, it := range q.Document.Body.Items {
				_ = fmt.Sprint(it)
			}
		}
	})
	c.guard("panic:append", "appending a document made by hand", func() {
		docx.New().AppendFile(d)
		d.AppendFile(d)
	})
}

func runC17(c *Ctx) {
	if c.Chance(0.15) {
		c.byHand()
		return
	}
	total, key := 0, ""
	if c.Chance(0.6) {
		w := newWorld(c.Rand, WorldOpt{Items: c.Intn(7), Images: c.Intn(4), Links: c.Intn(4), OddIDs: c.Chance(0.5), Types: imageFormats,
			Setup: func(g *Gen) { g.MultiRun = c.Chance(0.3); g.NoInstr = g.MultiRun }})
		d := c.mustOpen(w.bytes(c.Rand), "generated package")
		if d == nil {
			return
		}
		before := docState(d)
		total = c.rendered("text", "parsed", d, w.Doc.first("w:body"), w.refs())
		if a := docState(d); a != before {
			c.Violate("text:changes", "printing changes the document: %s", firstDiff(before, a))
		}
		key = fmt.Sprint(d.Document.Body.Items...)
		c.Sample(key)
		if body := w.Doc.first("w:body"); !c.Failed() && c.retext(d.Document.Body.Items, body) > 0 {
			c.rendered("text-edited", "parsed, with other texts", d, body, w.refs())
		}
	} else {
		h := &Hist{c: c, sig: "history", Fresh: 6, W: map[string]int{"build": 4, "edit": 2, "append": 3, "self": 1, "split": 2, "drop": 1, "reopen": 2, "delete": 1, "move": 1, "fresh": 1}, Setup: copySafe}
		h.run(1 + c.Intn(5))
		if c.Failed() {
			return
		}
		for _, p := range h.pool {
			s := c.savedOKDangling(p.d, p.name, p)
			if s == nil {
				return
			}
			total += c.rendered("text-live", p.name, p.d, s.body(), s.refs())
			key += fmt.Sprint(p.d.Document.Body.Items...)
		}
	}
	if total >= 3 {
		c.Distinct(key)
	}
}
