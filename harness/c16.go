package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"os"
	"path/filepath"
	"strings"

	docx "github.com/fumiama/go-docx"
	"github.com/fumiama/imgsz"
)

func init() {
	register(&Prop{ID: "C16", Quick: 8000, Deep: 500000, Run: runC16, CaseCPU: 30,
		Rule: "pictures of every format with ordinary, extreme and zero sizes, cut at every place, with changed bytes, of random bytes, or from files that are missing, empty or directories, added inline or anchored to paragraphs and table cells of built and parsed documents; a refused picture must leave everything as it was, an accepted one adds exactly one run with these bytes in the proportions of the image; non-trivial: bytes that begin like an image",
		Need: map[string]int{"pictures accepted": 2000, "pictures refused": 2000, "unchanged documents after a refusal": 2000, "anchored": 1000, "inline": 1000, "from files": 1000}})
}

// imageBytes gives something to insert; what describes it.
func (c *Ctx) imageBytes() (b []byte, what string) {
	f := imageFormats[c.Intn(len(imageFormats))]
	dim := func() int {
		switch c.Intn(6) {
		case 0:
			return []int{1, 2, 5, 6, 65535, 16383, 12, 10}[c.Intn(8)]
		case 1:
			return 1 + c.Intn(65535)
		case 2:
			return 5 * (1 + c.Intn(100))
		case 3:
			return 6 * (1 + c.Intn(100))
		}
		return 1 + c.Intn(3000)
	}
	w, h := dim(), dim()
	if c.Intn(6) == 0 {
		w = h * 6 / 5
		if w == 0 {
			w = 1
		}
	}
	if c.Intn(10) == 0 {
		if c.Intn(2) == 0 {
			w = 0
		} else {
			h = 0
		}
	}
	if f == "png" && c.Intn(6) == 0 {
		v := []int{1 << 31, 1<<31 - 1, 1<<32 - 1, 1 << 20, 0}
		w, h = v[c.Intn(5)], v[c.Intn(5)]
	}
	b = makeImage(c.Rand, f, w, h)
	what = fmt.Sprintf("%s %dx%d", f, w, h)
	if c.Intn(20) == 0 {
		b = larger(c.Rand, b)
		what += " of many bytes"
		c.Event("large pictures")
	}
	switch c.Intn(10) {
	case 0, 1:
		n := c.Intn(len(b) + 1)
		if n > 64 {
			n = c.Intn(64)
		}
		return b[:n], what + fmt.Sprintf(" cut at %d", n)
	case 2, 3:
		b = append([]byte(nil), b...)
		for k := 1 + c.Intn(3); k > 0; k-- {
			p := c.Intn(len(b))
			if p > 60 {
				p = c.Intn(60) % len(b)
			}
			b[p] = byte(c.Intn(256))
		}
		if f == "png" && c.Intn(2) == 0 { // keep the checksum right
			binary.BigEndian.PutUint32(b[29:], crc32.ChecksumIEEE(b[12:29]))
		}
		return b, what + " with changed bytes"
	case 4:
		if c.Intn(3) == 0 {
			return nil, "no bytes"
		}
		b = make([]byte, c.Intn(200))
		c.Read(b)
		if c.Intn(2) == 0 {
			b = append([]byte([]string{"\xff\xd8\xff", "GIF89a", "\x89PNG\r\n\x1a\n", "RIFF\x10\x00\x00\x00WEBPVP8 ", "RIFF\x10\x00\x00\x00WEBPVP8L", "BM", "II*\x00"}[c.Intn(7)]), b...)
		}
		return b, "random bytes"
	case 5: // lossless and lossy webp
		if c.Intn(2) == 0 {
			w, h = 1+w&0x3fff, 1+h&0x3fff
			p := []byte{0x2f, 0, 0, 0, 0}
			binary.LittleEndian.PutUint32(p[1:], uint32(w-1)|uint32(h-1)<<14)
			p = append(p, 1, 2, 3)
			return riff("VP8L", p), fmt.Sprintf("webp lossless %dx%d", w, h)
		}
		w, h = w&0x3fff, h&0x3fff
		p := []byte{0x10, 0, 0, 0x9d, 0x01, 0x2a, byte(w), byte(w >> 8), byte(h), byte(h >> 8), 0, 0, 0, 0, 0, 0}
		return riff("VP8 ", p), fmt.Sprintf("webp lossy %dx%d", w, h)
	}
	return b, what
}

func riff(kind string, p []byte) []byte {
	var b bytes.Buffer
	b.WriteString("RIFF")
	_ = binary.Write(&b, binary.LittleEndian, uint32(12+len(p)+len(p)%2))
	b.WriteString("WEBP" + kind)
	_ = binary.Write(&b, binary.LittleEndian, uint32(len(p)))
	b.Write(p)
	if len(p)%2 == 1 {
		b.WriteByte(0)
	}
	return b.Bytes()
}

// docState is all that can be seen of a document.
func docState(d *docx.Docx) string {
	var sb strings.Builder
	sb.WriteString(dump(&d.Document))
	_ = d.RangeRelationships(func(r *docx.Relationship) error {
		sb.WriteString("\n" + dump(r))
		return nil
	})
	return sb.String()
}

func runC16(c *Ctx) {
	h := &Hist{c: c, sig: "picture", Fresh: 6, MaxPool: 1, Setup: func(g *Gen) { g.NoNest = true }}
	p := h.fresh()
	if p == nil {
		return
	}
	dir, err := os.MkdirTemp("", "c16")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	for n := 1 + c.Intn(4); n > 0 && !c.Failed(); n-- {
		c.onePicture(p, dir)
	}
	if !c.Failed() {
		h.check(p, "at the end")
	}
}

// onePicture inserts something and judges what became of it.
func (c *Ctx) onePicture(p *PD, dir string) {
	data, what := c.imageBytes()
	var q *docx.Paragraph
	var n *Node
	if c.Intn(4) == 0 { // a cell
		t, tn := p.addTable()
		if t != nil && len(t.TableRows) > 0 && len(t.TableRows[0].TableCells) > 0 {
			q = t.TableRows[0].TableCells[0].AddParagraph()
			n = el("w:p")
			tn.first("w:tr").first("w:tc").add(n)
		}
	}
	if q == nil {
		q, n = p.addPara()
	}
	if c.Chance(0.3) {
		q.AddText("before")
		n.add(el("w:r", el("w:rPr"), el("w:t", tx("before"))))
	}
	anchor := c.Intn(2) == 0
	file := ""
	readable := true
	if c.Intn(3) == 0 {
		file = filepath.Join(dir, fmt.Sprintf("f%d", c.Intn(1000000))+[]string{"", "", ".png", ".jpg", ".PNG", ".jpeg", ".gif", ".bmp", ".tar.gz", "."}[c.Intn(10)])
		switch c.Intn(8) {
		case 0:
			file, readable = filepath.Join(dir, "missing", "x"), false
			what += " from a missing file"
		case 1:
			file, readable = dir, false
			what += " from a directory"
		default:
			if e := os.WriteFile(file, data, 0o600); e != nil {
				panic(e)
			}
			defer os.Remove(file)
		}
		c.Event("from files")
	}
	// the independent decision what the bytes are
	sz, format, derr := imgsz.DecodeSize(bytes.NewReader(data))
	if bytes.HasPrefix(data, []byte("\xff\xd8")) || bytes.HasPrefix(data, []byte("GIF8")) || bytes.HasPrefix(data, []byte("\x89PNG")) || bytes.HasPrefix(data, []byte("RIFF")) {
		c.Distinct(hash(data) + what)
	}
	accept := readable && derr == nil && sz.Width > 0 && sz.Height > 0
	state := docState(p.d)
	kids := append([]interface{}(nil), q.Children...)
	mediaOf := func() map[string]int {
		m := map[string]int{}
		pk, err := readPkg(c.mustSave(p.d, "document"))
		if err != nil {
			return nil
		}
		for name, b := range pk.asMap() {
			if strings.HasPrefix(name, "word/media/") {
				m[name+" "+hash(b)]++
			}
		}
		return m
	}
	mediaBefore := mediaOf()
	var r *docx.Run
	var err error
	if !c.guard("panic:insert", "inserting "+what, func() {
		switch {
		case file != "" && anchor:
			r, err = q.AddAnchorDrawingFrom(file)
		case file != "":
			r, err = q.AddInlineDrawingFrom(file)
		case anchor:
			r, err = q.AddAnchorDrawing(data)
		default:
			r, err = q.AddInlineDrawing(data)
		}
	}) {
		return
	}
	if anchor {
		c.Event("anchored")
	} else {
		c.Event("inline")
	}
	c.Sample(fmt.Sprintf("%s: anchor=%v file=%v -> err=%v", what, anchor, file != "", err))
	if (err == nil) != accept {
		c.Violate("decision", "inserting %s gives error %v, but the bytes are %dx%d %q, %v, readable %v", what, err, sz.Width, sz.Height, format, derr, readable)
		return
	}
	if err != nil {
		c.Event("pictures refused")
		if r != nil {
			c.Violate("run-with-error", "inserting %s gives an error and a run", what)
		}
		if s := docState(p.d); s != state {
			c.Violate("refusal-changes", "inserting %s is refused, but changes the document: %s", what, firstDiff(state, s))
			return
		}
		if m := mediaOf(); fmt.Sprint(m) != fmt.Sprint(mediaBefore) {
			c.Violate("refusal-media", "inserting %s is refused, but changes the media", what)
		}
		c.Event("unchanged documents after a refusal")
		return
	}
	c.Event("pictures accepted")
	c.Event("format " + format)
	if r == nil || len(q.Children) != len(kids)+1 || q.Children[len(kids)] != interface{}(r) {
		c.Violate("not-one-run", "inserting %s does not append exactly the returned run: %d children before, %d after", what, len(kids), len(q.Children))
		return
	}
	for i := range kids {
		if kids[i] != q.Children[i] {
			c.Violate("siblings", "inserting %s changes child %d", what, i)
		}
	}
	cx, cy := int64(maxW/2), int64(0)
	if int64(sz.Width)*5 > int64(sz.Height)*6 {
		cx = maxW
		cy = maxW * int64(sz.Height) / int64(sz.Width)
	} else {
		cy = maxW * int64(sz.Height) / int64(sz.Width) / 2
	}
	id := p.mod.img(data)
	n.add(el("w:r", el("w:rPr"), frameNode(anchor, cx, cy, "", "1", picNode(id, cx, cy))))
	after := mediaOf()
	same, added := 0, 0
	for k := range mediaBefore {
		if after[k] == mediaBefore[k] {
			same++
		}
	}
	for k := range after {
		if mediaBefore[k] == 0 {
			added++
			if !strings.HasSuffix(strings.Fields(k)[0], "."+format) && !strings.Contains(k, "."+format+" ") {
				c.Violate("media-name", "inserting %s (%s) adds media %q", what, format, k)
			}
			if !strings.HasSuffix(k, " "+hash(data)) {
				c.Violate("media-bytes", "inserting %s adds media %q, want hash %s", what, k, hash(data))
			}
		}
	}
	if same != len(mediaBefore) || added > 1 {
		c.Violate("media", "inserting %s: %d of %d media are left unchanged, %d added", what, same, len(mediaBefore), added)
	}
}
