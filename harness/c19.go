package main

import (
	"bytes"
	"encoding/xml"
	"errors"
	"fmt"
	"regexp"
	"strings"

	docx "github.com/fumiama/go-docx"
)

func init() {
	register(&Prop{ID: "C19", Quick: 10000, Deep: 150000, Run: runC19,
		Rule: "random sequences of reading operations (saving, failing to save, printing, marshalling, looking up relationships and media, merging into new paragraphs, splitting, being appended elsewhere) on documents of every origin; everything visible of the document is compared before and after each, and all parts of repeated saves are compared byte for byte; non-trivial: a document with content and at least 5 operations",
		Need: map[string]int{"reading operations": 30000, "repeated saves compared": 10000, "documents unchanged": 30000}})
}

func runC19(c *Ctx) {
	h := &Hist{c: c, sig: "reading", Fresh: 5, W: map[string]int{"build": 3, "edit": 2, "append": 2, "split": 1, "reopen": 2, "drop": 1, "delete": 1, "move": 1, "fresh": 1}, Setup: copySafe, MaxPool: 3}
	h.start(c.Intn(4))
	if c.Failed() || len(h.pool) == 0 {
		return
	}
	p := h.pick()
	d := p.d
	state := docState(d)
	first := c.mustSave(d, "document")
	if first == nil {
		return
	}
	parts := partsText(first)
	if s := docState(d); s != state {
		c.Violate("changes:save", "saving changes the document: %s", firstDiff(state, s))
		return
	}
	media := map[string][]byte{} // the pictures by name, which look-ups must keep finding
	if pk, err := readPkg(first); err == nil {
		for _, x := range pk.Parts {
			if n := strings.TrimPrefix(x.Name, "word/media/"); n != x.Name {
				media[n] = x.Data
			}
		}
	}
	lookups := func(after string) {
		for n, b := range media {
			if m := d.Media(n); m == nil || m.Name != n || !bytes.Equal(m.Data, b) {
				c.Violate("media:"+after, "after %s Media(%q) is %v, not the picture that was saved under this name", after, n, m != nil)
				return
			}
			c.Event("media looked up")
		}
	}
	lookups("save")
	ops := 3 + c.Intn(8)
	if ops >= 5 && len(d.Document.Body.Items) > 0 {
		c.Distinct(state)
	}
	var names []string
	for i := 0; i < ops && !c.Failed(); i++ {
		op := ""
		do := func(name string, f func()) {
			op = name
			c.guard("panic:"+name, name, f)
		}
		switch c.Intn(11) {
		case 0, 1:
			do("save", func() {
				b, err := save(d)
				c.Event("repeated saves compared")
				if err != nil {
					c.Violate("save-again", "saving again after [%v] fails: %v", names, err)
				} else if got := partsText(b); got != parts {
					c.Violate("save-differs", "saving again after [%v] gives other parts: %s", names, firstDiff(parts, got))
				}
			})
		case 2:
			do("failing save", func() {
				_, err := d.WriteTo(&faultWriter{call: 1 + c.Intn(12), budget: -1, mode: c.Intn(2)})
				_ = err
			})
		case 3:
			do("print", func() { _ = fmt.Sprint(d.Document.Body.Items...) })
		case 4:
			do("marshal", func() {
				a, err := xml.Marshal(&d.Document)
				b, err2 := xml.Marshal(d.Document)
				if err != nil || err2 != nil || !bytes.Equal(a, b) {
					c.Violate("marshal", "marshalling twice: %v, %v, equal %v", err, err2, bytes.Equal(a, b))
				}
			})
		case 5:
			do("look up", func() {
				var ids []string
				stop := errors.New("stop")
				n, k := c.Intn(6), 0
				err := d.RangeRelationships(func(r *docx.Relationship) error {
					ids = append(ids, r.ID, r.Target)
					if k++; k > n {
						return stop
					}
					return nil
				})
				if (err == stop) != (k > n) {
					c.Violate("range", "RangeRelationships returns %v after %d calls of which the last fails at %d", err, k, n)
				}
				for _, id := range append(ids, "", "rId99999", "nothing") {
					_, _ = d.ReferTarget(id)
					_, _ = d.ReferID(id)
					_ = d.Media(id)
					_ = d.Media(trimMedia(id))
				}
			})
		case 6:
			do("merge", func() {
				for _, it := range d.Document.Body.Items {
					if q, ok := it.(*docx.Paragraph); ok {
						_ = q.MergeText([]docx.RunMergeRule{docx.MergeAllRuns, docx.MergeSamePropRuns, docx.MergeSamePropRunsOf("Bold", "Size")}[c.Intn(3)])
					}
				}
			})
		case 7:
			do("split", func() {
				ds := d.SplitByParagraph(func(*docx.Paragraph) bool { return c.Intn(2) == 0 })
				for _, x := range ds {
					if c.Intn(3) == 0 {
						_, _ = save(x)
					}
				}
			})
		case 8:
			do("split by text", func() {
				_ = d.SplitByParagraph(docx.SplitDocxByPlainTextRegex(regexp.MustCompile("[0-5]")))
			})
		case 9:
			do("append to another", func() {
				o := docx.New().WithDefaultTheme()
				o.AddParagraph().AddLink("a", "http://b/")
				o.AppendFile(d)
				_, _ = save(o)
			})
		case 10:
			do("open the saved package", func() {
				o, err := open(first)
				if err == nil {
					o.AddParagraph().AddText("other")
					_, _ = save(o)
				}
			})
		}
		names = append(names, op)
		c.Event("reading operations")
		if s := docState(d); s != state {
			c.Violate("changes:"+op, "%s changes the document (after %v): %s", op, names, firstDiff(state, s))
			return
		}
		lookups(op)
		c.Event("documents unchanged")
	}
	last := c.mustSave(d, "document")
	if last == nil {
		return
	}
	c.Event("repeated saves compared")
	if got := partsText(last); got != parts {
		c.Violate("save-differs", "saving after %v gives other parts: %s", names, firstDiff(parts, got))
	}
	c.Sample(fmt.Sprintf("%d items: %v", len(d.Document.Body.Items), names))
	if o := c.mustOpen(first, "saved package"); o != nil {
		again := c.mustSave(o, "opened package")
		if again == nil {
			return
		}
		c.Event("saves after opening compared")
		if got := partsText(again); got != parts {
			c.Violate("reopened-differs", "opening what was saved and saving it gives other parts: %s", firstDiff(parts, got))
		}
	}
}

func trimMedia(s string) string {
	if len(s) > 6 {
		return s[6:]
	}
	return s
}
