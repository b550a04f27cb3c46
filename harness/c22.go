package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"reflect"
	"strings"

	docx "github.com/fumiama/go-docx"
)

func init() {
	register(&Prop{ID: "C22", Quick: 16000, Deep: 200000, Run: runC22,
		Rule: "relationship and media look-ups on parsed, built, loaded, split and appended documents after random histories, judged against the input package and against the package that is saved: every id, every target, every media name, names and ids that do not exist, and iterations stopped at every place; non-trivial: at least one relationship or media beyond the default ones",
		Need: map[string]int{"relationships looked up": 50000, "media looked up": 8000, "iterations stopped": 20000, "unknown names": 10000, "ids drawn": 10000, "later look-ups": 3000}})
}

// lookups judges the look-ups of a document against a list of relationships
// (in order) and media.
func (c *Ctx) lookups(what string, d *docx.Docx, rels []Rel, media map[string][]byte) {
	var got []Rel
	err := d.RangeRelationships(func(r *docx.Relationship) error {
		got = append(got, Rel{r.ID, r.Type, r.Target, r.TargetMode})
		return nil
	})
	if err != nil {
		c.Violate("range-error", "%s: RangeRelationships returns %v though no call failed", what, err)
	}
	if len(got) != len(rels) || (len(got) > 0 && !reflect.DeepEqual(got, rels)) {
		c.Violate("range", "%s: RangeRelationships visits %v, want %v", what, got, rels)
		return
	}
	for stop := 0; stop < len(rels); stop++ {
		e := []error{errors.New("stop"), io.EOF, fs.SkipAll, fs.SkipDir, fs.ErrNotExist, context.Canceled, docx.ErrRefIDNotFound, fmt.Errorf("stop: %w", io.EOF), io.ErrUnexpectedEOF, &fs.PathError{Op: "stop", Err: io.EOF}}[c.Intn(10)]
		k := 0
		err := d.RangeRelationships(func(*docx.Relationship) error {
			k++
			if k == stop+1 {
				return e
			}
			return nil
		})
		c.Event("iterations stopped")
		if err != e || k != stop+1 {
			c.Violate("range-stop", "%s: an iteration of %d stopped by an error at %d makes %d calls and returns %v", what, len(rels), stop, k, err)
		}
	}
	ids := map[string]string{}
	targets := map[string]bool{}
	for _, r := range rels {
		c.Event("relationships looked up")
		ids[r.ID] = r.Target
		targets[r.Target] = true
	}
	for id, want := range ids {
		if t, err := d.ReferTarget(id); err != nil || t != want {
			c.Violate("refer-target", "%s: ReferTarget(%q) is %q, %v, want %q", what, id, t, err, want)
		}
	}
	for t := range targets {
		if id, err := d.ReferID(t); err != nil || ids[id] != t {
			c.Violate("refer-id", "%s: ReferID(%q) is %q (which has the target %q), %v", what, t, id, ids[id], err)
		}
	}
	for _, id := range []string{"", "rId0", "rId", "RID1", "rId01", " rId1", "rId999999", "1", "media", "\x00"} {
		c.Event("unknown names")
		if _, known := ids[id]; !known {
			if t, err := d.ReferTarget(id); !errors.Is(err, docx.ErrRefIDNotFound) {
				c.Violate("refer-unknown", "%s: ReferTarget(%q) is %q, %v", what, id, t, err)
			}
		}
		if !targets[id] {
			if x, err := d.ReferID(id); err == nil {
				c.Violate("refer-unknown", "%s: ReferID(%q) is %q without an error", what, id, x)
			}
		}
		if _, known := media[id]; !known {
			if m := d.Media(id); m != nil {
				c.Violate("media-unknown", "%s: Media(%q) is %q", what, id, m.Name)
			}
		}
	}
	for n, b := range media {
		c.Event("media looked up")
		m := d.Media(n)
		if m == nil {
			c.Violate("media-missing", "%s: Media(%q) is nil", what, n)
			continue
		}
		if m.Name != n || !bytes.Equal(m.Data, b) || m.String() != "word/media/"+n {
			c.Violate("media-wrong", "%s: Media(%q) is %q (%s), %d bytes, want %d bytes", what, n, m.Name, m.String(), len(m.Data), len(b))
		}
		for _, x := range []string{n + "x", strings.ToUpper(n) + "Z", "word/media/" + n, "/" + n} {
			if _, known := media[x]; !known {
				c.Event("unknown names")
				if d.Media(x) != nil {
					c.Violate("media-unknown", "%s: Media(%q) exists", what, x)
				}
			}
		}
	}
}

// savedLookups judges the look-ups against the package that is saved.
func (c *Ctx) savedLookups(what string, d *docx.Docx) {
	out := c.mustSave(d, what)
	if out == nil {
		return
	}
	pk, err := readPkg(out)
	if err != nil {
		c.Violate("bad-zip", "%s: %v", what, err)
		return
	}
	rx, _ := pk.get(relsPart)
	rels, err := parseRels(rx)
	if err != nil {
		c.Violate("rels-malformed", "%s: %v", what, err)
		return
	}
	for _, r := range rels { // strings that XML cannot carry are not for comparison
		if strings.Contains(r.Target, "\ufffd") {
			return
		}
	}
	media := map[string][]byte{}
	for _, x := range pk.Parts {
		if strings.HasPrefix(x.Name, "word/media/") {
			media[strings.TrimPrefix(x.Name, "word/media/")] = x.Data
		}
	}
	if len(rels) > 3 || len(media) > 0 {
		c.Distinct(fmt.Sprint(rels, len(media)))
	}
	c.Sample(fmt.Sprint(what, " ", rels))
	c.lookups(what, d, rels, media)
}

// laterLookups judges the look-ups of a document that has been looked at,
// after each of some more additions.
func (c *Ctx) laterLookups(what string, d *docx.Docx) {
	for k := c.Intn(3); k > 0 && !c.Failed(); k-- {
		p := d.AddParagraph()
		switch c.Intn(3) {
		case 0:
			pic := makeImage(c.Rand, imageFormats[c.Intn(4)], 1+c.Intn(9), 1+c.Intn(9))
			if _, err := p.AddInlineDrawing(pic); err != nil {
				c.Violate("picture-refused", "%s: %v", what, err)
			}
			what += ", a picture"
		case 1:
			pic := makeImage(c.Rand, imageFormats[c.Intn(4)], 1+c.Intn(9), 1+c.Intn(9))
			if _, err := p.AddAnchorDrawing(pic); err != nil {
				c.Violate("picture-refused", "%s: %v", what, err)
			}
			what += ", a picture"
		default:
			p.AddLink("y", fmt.Sprintf("http://later/%d", c.Int63()))
			what += ", a link"
		}
		c.Event("later look-ups")
		c.savedLookups(what, d)
	}
}

func runC22(c *Ctx) {
	switch c.Intn(6) {
	case 0, 1: // just opened: against the input
		w := newWorld(c.Rand, WorldOpt{Items: c.Intn(4), Images: c.Intn(6), Links: c.Intn(6), OddIDs: c.Chance(0.6), Types: imageFormats, Extra: c.Chance(0.2), ModelessLinks: true})
		d := c.mustOpen(w.bytes(c.Rand), "generated package")
		if d == nil {
			return
		}
		c.lookups("opened package", d, w.Rels, w.Media)
		c.savedLookups("opened package", d)
		c.laterLookups("opened package", d)
	case 2: // loaded with media
		media := map[string][]byte{}
		var ms []docx.Media
		for k := c.Intn(5); k > 0; k-- {
			n := fmt.Sprintf("%s%d.%s", []string{"image", "Bild ", "x", "图", "a%20b", "UP."}[c.Intn(6)], k, imageFormats[c.Intn(4)])
			b := makeImage(c.Rand, "png", 1+c.Intn(9), 1+c.Intn(9))
			media[n] = b
			ms = append(ms, docx.Media{Name: n, Data: b})
		}
		d := docx.LoadBodyItems(nil, ms).WithDefaultTheme()
		c.Event("documents loaded")
		for k := c.Intn(4); k > 0; k-- {
			pic := makeImage(c.Rand, imageFormats[c.Intn(4)], 5, 5)
			if _, err := d.AddParagraph().AddInlineDrawing(pic); err != nil {
				c.Violate("picture-refused", "%v", err)
			}
		}
		for n, b := range media {
			if m := d.Media(n); m == nil || !bytes.Equal(m.Data, b) {
				c.Violate("media-loaded", "Media(%q) of a loaded document is not what was loaded", n)
			}
		}
		c.savedLookups("loaded document", d)
		c.laterLookups("loaded document", d)
	default:
		h := &Hist{c: c, sig: "history", Fresh: 5, W: map[string]int{"build": 4, "edit": 2, "append": 3, "self": 1, "split": 2, "drop": 1, "reopen": 1, "delete": 1, "fresh": 1}, Setup: func(g *Gen) { copySafe(g); g.PicOnly = true }}
		h.start(c.Intn(5))
		for _, p := range h.pool {
			if c.Failed() {
				return
			}
			c.savedLookups(p.name, p.d)
			// and after one more addition
			q := p.d.AddParagraph()
			url := fmt.Sprintf("http://new/%d", c.Int63())
			l := q.AddLink("x", url)
			if t, err := p.d.ReferTarget(l.ID); err != nil || t != url {
				c.Violate("added-link", "%s: the id of an added link leads to %q, %v, want %q", p.name, t, err, url)
			}
			if id, err := p.d.ReferID(url); err != nil || id != l.ID {
				c.Violate("added-link", "%s: ReferID of an added link is %q, %v, want %q", p.name, id, err, l.ID)
			}
			c.savedLookups(p.name+" and a link", p.d)
			c.laterLookups(p.name, p.d)
		}
	}
	// named ids
	d := docx.New()
	last := map[string]uintptr{}
	for k := 0; k < 20; k++ {
		n := []string{"", "图片", "a", "A", "图片 "}[c.Intn(5)]
		id := d.IncreaseID(n)
		c.Event("ids drawn")
		if id != last[n]+1 {
			c.Violate("named-id", "IncreaseID(%q) is %d after %d", n, id, last[n])
		}
		last[n] = id
	}
}
