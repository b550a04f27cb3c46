package main

import (
	"fmt"
	"io/fs"
	"math/rand"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing/fstest"

	docx "github.com/fumiama/go-docx"
)

func init() {
	register(&Prop{ID: "C15", Quick: 500, Deep: 20000, Run: runC15, CaseCPU: 240,
		Rule: "under the race detector: goroutines working on their own documents (sharing templates, packages and images), and goroutines saving, printing, querying, splitting, merging and copying one shared document, with random yields; every result is compared with the one computed alone; ids drawn by many goroutines are unique; non-trivial: at least 3 goroutines on a document with content",
		Need: map[string]int{"concurrent jobs": 300, "concurrent reads of one document": 2500, "concurrent before alone": 100, "ids drawn": 20000, "different interleavings of ids": 50}})
}

// sub gives a context with its own randomness for another goroutine. It has
// records of its own, for the race detector would take a lock they share for
// an ordering of the calls under test.
func (c *Ctx) sub(seed int64) *Ctx {
	s := &sink{events: map[string]int{}, distinct: map[uint64]struct{}{}, sigs: map[string]int{}}
	return &Ctx{Rand: rand.New(rand.NewSource(seed)), Prop: c.Prop, Case: c.Case, Seed: c.Seed, Tier: c.Tier, sink: s}
}

// join takes over what another goroutine has recorded, after its end.
func (c *Ctx) join(o *Ctx) {
	for k, n := range o.sink.events {
		c.EventN(k, n)
	}
	s := c.sink
	s.mu.Lock()
	for h := range o.sink.distinct {
		s.distinct[h] = struct{}{}
	}
	for k, n := range o.sink.sigs {
		s.sigs[k] += n
	}
	s.viol = append(s.viol, o.sink.viol...)
	s.nviol += o.sink.nviol
	s.mu.Unlock()
	c.mu.Lock()
	c.nviol += o.nviol
	c.mu.Unlock()
}

// partsText is the content of a package independent of the order of its parts.
func partsText(b []byte) string {
	pk, err := readPkg(b)
	if err != nil {
		return "bad package: " + err.Error()
	}
	var l []string
	for _, x := range pk.Parts {
		l = append(l, fmt.Sprintf("%s %d %s", x.Name, len(x.Data), hash(x.Data)))
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

type ownTemplate struct {
	list []string
	fs   fs.FS
}

// templateOf makes a small template.
func templateOf(c *Ctx, mark string) ownTemplate {
	m := fstest.MapFS{}
	var list []string
	for _, n := range docx.DefaultTemplateFilesList {
		b, err := fs.ReadFile(docx.TemplateXMLFS, "xml/default/"+n)
		if err != nil {
			panic(err)
		}
		if strings.HasPrefix(n, "docProps/") {
			b = append(b, []byte("<!--"+mark+"-->")...)
		}
		m["xml/t/"+n] = &fstest.MapFile{Data: b}
		list = append(list, n)
	}
	return ownTemplate{list, m}
}

func docText(d *docx.Docx) string {
	var sb strings.Builder
	for _, it := range d.Document.Body.Items {
		switch o := it.(type) {
		case *docx.Paragraph:
			sb.WriteString(o.String() + "\n")
		case *docx.Table:
			sb.WriteString(o.String() + "\n")
		}
	}
	return sb.String()
}

// ownJob works on documents of its own and tells what came out.
func ownJob(c *Ctx, shared []byte, pics [][]byte) string {
	var res []string
	save1 := func(d *docx.Docx) {
		b, err := save(d)
		if err != nil {
			res = append(res, "error "+err.Error())
			return
		}
		res = append(res, partsText(b))
	}
	b := c.build(1+c.Intn(4), nil)
	if len(pics) > 0 {
		p := b.d.AddParagraph()
		for k := c.Intn(3); k > 0; k-- {
			_, err := p.AddInlineDrawing(pics[c.Intn(len(pics))])
			if err != nil {
				res = append(res, err.Error())
			}
		}
	}
	if c.Intn(4) == 0 { // a template of its own
		t := templateOf(c, fmt.Sprintf("t%d", c.Intn(3)))
		b.d.UseTemplate("t", t.list, t.fs)
	}
	save1(b.d)
	d, err := open(shared)
	if err != nil {
		return "open: " + err.Error()
	}
	res = append(res, docText(d))
	d.AddParagraph().AddText("mine")
	if c.Intn(2) == 0 {
		d.AppendFile(b.d)
	}
	if c.Intn(2) == 0 {
		d.Document.Body.DropDrawingOf("ShapeAndCanvasAndGroup")
	}
	if c.Intn(2) == 0 {
		for _, it := range d.Document.Body.Items {
			p, ok := it.(*docx.Paragraph)
			if !ok {
				continue
			}
			switch c.Intn(5) {
			case 0:
				p.KeepElements("*docx.Run", "*docx.Hyperlink")
			case 1:
				p.DropShape()
			case 2:
				p.DropNilPicture()
			case 3:
				for _, x := range p.Children {
					if r, ok := x.(*docx.Run); ok {
						r.KeepElements("*docx.Text", "*docx.Tab")
					}
				}
			}
		}
		if c.Intn(3) == 0 {
			d.Document.Body.KeepElements("*docx.Paragraph")
		}
	}
	save1(d)
	if c.Intn(2) == 0 {
		for _, x := range d.SplitByParagraph(func(p *docx.Paragraph) bool { return len(p.Children)%2 == 0 }) {
			save1(x)
		}
	}
	return strings.Join(res, "\n====\n")
}

// readJobs are the ways to use one shared document without changing it.
var readJobs = []struct {
	name string
	f    func(d *docx.Docx) string
}{
	{"WriteTo", func(d *docx.Docx) string {
		b, err := save(d)
		if err != nil {
			return err.Error()
		}
		return partsText(b)
	}},
	{"String", docText},
	{"SplitByParagraph", func(d *docx.Docx) string {
		var sb strings.Builder
		for _, x := range d.SplitByParagraph(func(p *docx.Paragraph) bool { return len(p.Children)%2 == 1 }) {
			b, err := save(x)
			if err != nil {
				return err.Error()
			}
			sb.WriteString(partsText(b) + "\n")
		}
		return sb.String()
	}},
	{"SplitDocxByPlainTextRegex", func(d *docx.Docx) string {
		n := ""
		for _, x := range d.SplitByParagraph(docx.SplitDocxByPlainTextRegex(regexp.MustCompile("[0-9]"))) {
			n += docText(x) + "----\n"
		}
		return n
	}},
	{"AppendFile", func(d *docx.Docx) string {
		n := docx.New().WithDefaultTheme()
		n.AddParagraph().AddText("first")
		n.AppendFile(d)
		b, err := save(n)
		if err != nil {
			return err.Error()
		}
		return partsText(b)
	}},
	{"MergeText", func(d *docx.Docx) string {
		var sb strings.Builder
		for _, it := range d.Document.Body.Items {
			if p, ok := it.(*docx.Paragraph); ok {
				for _, r := range []docx.RunMergeRule{docx.MergeAllRuns, docx.MergeSamePropRuns, docx.MergeSamePropRunsOf("Bold", "Size")} {
					np := p.MergeText(r)
					sb.WriteString(fmt.Sprintln(np.String(), len(np.Children)))
				}
			}
		}
		return sb.String()
	}},
	{"relationships", func(d *docx.Docx) string {
		var sb strings.Builder
		_ = d.RangeRelationships(func(r *docx.Relationship) error {
			t, err := d.ReferTarget(r.ID)
			id, err2 := d.ReferID(r.Target)
			n := 0
			if m := d.Media(strings.TrimPrefix(r.Target, "media/")); m != nil {
				n = len(m.Data)
			}
			sb.WriteString(fmt.Sprintln(r.ID, r.Type, r.Target, t, err, id, err2, n))
			return nil
		})
		return sb.String()
	}},
	{"dump", func(d *docx.Docx) string { return hash([]byte(dump(d.Document))) }},
}

func runC15(c *Ctx) {
	w := newWorld(c.Rand, WorldOpt{Items: 1 + c.Intn(5), Images: c.Intn(3), Links: c.Intn(3), Extra: c.Chance(0.3), Setup: copySafe})
	in := w.bytes(c.Rand)
	var pics [][]byte
	for k := c.Intn(3); k > 0; k-- {
		pics = append(pics, makeImage(c.Rand, "png", 1+c.Intn(9), 1+c.Intn(9)))
	}
	switch c.Intn(3) {
	case 0: // own documents
		n := 3 + c.Intn(4)
		seeds := make([]int64, n)
		want, got := make([]string, n), make([]string, n)
		for i := range seeds {
			seeds[i] = c.Int63()
			if c.Chance(0.3) && i > 0 {
				seeds[i] = seeds[0]
			}
		}
		// what happens for the first time may happen concurrently
		first := c.Chance(0.7)
		alone := func() {
			for i := range seeds {
				sc := c.sub(seeds[i])
				want[i] = ownJob(sc, in, pics)
				c.join(sc)
			}
		}
		if !first {
			alone()
		}
		var wg sync.WaitGroup
		start := make(chan struct{})
		subs := make([]*Ctx, n)
		for i := range seeds {
			i := i
			subs[i] = c.sub(seeds[i])
			wg.Add(1)
			go func() {
				defer wg.Done()
				sc := subs[i]
				<-start
				sc.guard("panic:own", "own document", func() { got[i] = ownJob(sc, in, pics) })
			}()
		}
		close(start)
		wg.Wait()
		for _, sc := range subs {
			c.join(sc)
		}
		if first {
			alone()
			c.Event("concurrent before alone")
		}
		for i := range seeds {
			c.Event("concurrent jobs")
			if got[i] != want[i] {
				c.ViolateD("own-differs", want[i]+"\n\n"+got[i], "goroutine %d of %d working on its own documents got something else than alone: %s", i, n, firstDiff(want[i], got[i]))
			}
		}
		c.Distinct(fmt.Sprint("own", seeds))
		c.Sample(fmt.Sprintf("%d goroutines on their own documents over a shared package of %d bytes and %d pictures", n, len(in), len(pics)))
	case 1: // one shared document
		var d *docx.Docx
		if c.Chance(0.6) {
			d = c.mustOpen(in, "generated package")
			if d == nil {
				return
			}
			if c.Chance(0.5) && len(pics) > 0 {
				_, _ = d.AddParagraph().AddAnchorDrawing(pics[0])
			}
		} else {
			d = c.build(1+c.Intn(5), nil).d
		}
		want := make([]string, len(readJobs))
		first := c.Chance(0.6)
		before := ""
		if first { // nothing else has read the document before
			before = dump(d.Document)
		} else {
			for i, j := range readJobs {
				want[i] = j.f(d)
			}
		}
		n := 3 + c.Intn(5)
		type read struct {
			job int
			got string
		}
		reads := make([][]read, n)
		subs := make([]*Ctx, n)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := 0; i < n; i++ {
			i := i
			subs[i] = c.sub(c.Int63())
			wg.Add(1)
			go func() {
				defer wg.Done()
				sc := subs[i]
				<-start
				for k := 0; k < 6; k++ {
					x := sc.Intn(len(readJobs))
					sc.guard("panic:shared", readJobs[x].name, func() { reads[i] = append(reads[i], read{x, readJobs[x].f(d)}) })
					if sc.Intn(3) == 0 {
						runtime.Gosched()
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		if first {
			if after := dump(d.Document); after != before {
				c.ViolateD("changed", before+"\n\n"+after, "concurrent reads change a document: %s", firstDiff(before, after))
			}
			for i, j := range readJobs {
				want[i] = j.f(d)
			}
			c.Event("concurrent before alone")
		} else {
			for i, j := range readJobs {
				if got := j.f(d); got != want[i] {
					c.ViolateD("changed", want[i]+"\n\n"+got, "%s gives something else after concurrent reads: %s", j.name, firstDiff(want[i], got))
				}
			}
		}
		for i, sc := range subs {
			c.join(sc)
			for _, r := range reads[i] {
				c.Event("concurrent reads of one document")
				if r.got != want[r.job] {
					c.ViolateD("shared-differs", want[r.job]+"\n\n"+r.got, "%s of a shared document differs from the one computed alone: %s", readJobs[r.job].name, firstDiff(want[r.job], r.got))
				}
			}
		}
		c.Distinct(fmt.Sprint("shared", n, hash([]byte(dump(d.Document)))))
		c.Sample(fmt.Sprintf("%d goroutines reading one document of %d items", n, len(d.Document.Body.Items)))
	case 2: // ids
		var d *docx.Docx
		if c.Chance(0.5) {
			d = docx.New().WithDefaultTheme()
		} else if d = c.mustOpen(in, "generated package"); d == nil {
			return
		}
		keys := []string{"图片", "a", "", "b\x00"}[:1+c.Intn(4)]
		base := map[string]uint64{}
		for _, k := range keys {
			base[k] = uint64(d.IncreaseID(k))
		}
		n, m := 2+c.Intn(7), 30+c.Intn(60)
		type draw struct {
			key string
			id  uint64
		}
		res := make([][]draw, n)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := 0; i < n; i++ {
			i := i
			r := rand.New(rand.NewSource(c.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for k := 0; k < m; k++ {
					key := keys[r.Intn(len(keys))]
					res[i] = append(res[i], draw{key, uint64(d.IncreaseID(key))})
					if r.Intn(20) == 0 {
						runtime.Gosched()
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		seen := map[string]map[uint64]int{}
		order := ""
		for i, l := range res {
			last := map[string]uint64{}
			for _, x := range l {
				c.Event("ids drawn")
				if seen[x.key] == nil {
					seen[x.key] = map[uint64]int{}
				}
				if j, dup := seen[x.key][x.id]; dup {
					c.Violate("id-dup", "id %d of %q was given to goroutines %d and %d", x.id, x.key, j, i)
				}
				seen[x.key][x.id] = i
				if x.id <= last[x.key] {
					c.Violate("id-order", "goroutine %d got id %d of %q after %d", i, x.id, x.key, last[x.key])
				}
				last[x.key] = x.id
			}
		}
		for k, s := range seen {
			for id := range s {
				if id <= base[k] || id > base[k]+uint64(len(s)) {
					c.Violate("id-range", "%d ids of %q were drawn after %d, one is %d", len(s), k, base[k], id)
				}
			}
			if k == keys[0] {
				for id := base[k] + 1; id <= base[k]+uint64(len(s)); id++ {
					order += string(rune('A' + s[id]))
				}
			}
		}
		h := hash([]byte(order))
		c.Distinct("ids" + h)
		c.Event("different interleavings of ids")
		c.Sample("order of the goroutines drawing ids: " + short(order))
	}
}
