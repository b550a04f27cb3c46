package main

import (
	"archive/zip"
	"bytes"
	"fmt"
	"io"

	docx "github.com/fumiama/go-docx"
)

func init() {
	register(&Prop{ID: "C14", Quick: 1200, Deep: 10000, Run: runC14,
		Rule: "packages opened with every single read of the source failing or ending early, cut at offsets all over the file, with bits flipped in the data and header of every entry, with entries misdescribed (method, checksum, sizes), and with the document and relationship parts cut at offsets all over their text; opening (or saving, for parts only read then) must report it or nothing may be lost; non-trivial: a package with at least 20 fault points",
		Need: map[string]int{"read faults delivered": 3000, "truncated files": 10000, "corrupted entries": 4000, "truncated parts": 10000, "damaged headers": 3000, "faults reported by Parse": 20000, "faults reported by WriteTo": 500}})
}

// cuts gives offsets in [0,n): all of them if few, else a sample.
func (c *Ctx) cuts(n, max int) (r []int) {
	if n <= max {
		for i := 0; i < n; i++ {
			r = append(r, i)
		}
		return
	}
	for i := 0; i < max; i++ {
		r = append(r, c.Intn(n))
	}
	return append(r, 0, 1, n-1, n-2)
}

func runC14(c *Ctx) {
	var w *World
	var in []byte
	if c.Chance(0.25) { // one of the library's own packages
		b := c.build(c.Intn(4), nil)
		in = c.mustSave(b.d, "built document")
		if in == nil {
			return
		}
	} else {
		w = newWorld(c.Rand, WorldOpt{Style: plainStyle(), Items: c.Intn(4), Images: c.Intn(3), Links: c.Intn(2), Extra: true})
		in = w.bytes(c.Rand)
	}
	d := c.mustOpen(in, "generated package")
	if d == nil {
		return
	}
	good := c.mustSave(d, "generated package")
	if good == nil {
		return
	}
	gp, err := readPkg(good)
	if err != nil {
		c.Violate("bad-zip", "saving gives %v", err)
		return
	}
	want := gp.asMap()
	points := 0
	max := 60
	if c.Tier == "thorough" {
		max = 800
	}
	// judge opens a damaged source: an error must come, or nothing is lost.
	// must: an error is required.
	judge := func(what string, r io.ReaderAt, size int64, must bool) bool {
		points++
		var d *docx.Docx
		var err error
		if !c.guard("panic:open", "Parse with "+what, func() { d, err = docx.Parse(r, size) }) {
			return false
		}
		if err != nil {
			c.Event("faults reported by Parse")
			return true
		}
		if must {
			c.Violate("unreported", "Parse returns no error with %s", what)
			return false
		}
		var buf bytes.Buffer
		if !c.guard("panic:save", "WriteTo after Parse with "+what, func() { _, err = d.WriteTo(&buf) }) {
			return false
		}
		if err != nil {
			c.Event("faults reported by WriteTo")
			return true
		}
		c.Event("faults without effect")
		return c.samePackage("silent", "neither Parse nor WriteTo reported "+what, want, buf.Bytes())
	}
	// every read of the source
	fr := &faultReaderAt{data: in, arm: true, call: 1 << 30}
	if _, err := docx.Parse(fr, int64(len(in))); err != nil {
		c.Violate("open-failed", "Parse without any fault failed: %v", err)
		return
	}
	for k := 1; k <= fr.n; k++ {
		f := &faultReaderAt{data: in, arm: true, call: k, once: c.Intn(2) == 0, mode: c.Intn(4)}
		if !judge(fmt.Sprintf("read %d/%d failing (mode %d, once %v)", k, fr.n, f.mode, f.once), f, int64(len(in)), false) {
			return
		}
		c.EventN("read faults delivered", f.hits)
	}
	// the file is cut, or its size is misstated
	for _, n := range c.cuts(len(in), max) {
		c.Event("truncated files")
		if !judge(fmt.Sprintf("the file cut at %d/%d", n, len(in)), bytes.NewReader(in[:n]), int64(n), false) {
			return
		}
		if c.Intn(10) == 0 && !judge(fmt.Sprintf("size %d stated for %d bytes", n, len(in)), bytes.NewReader(in), int64(n), false) {
			return
		}
	}
	if !judge("a size larger than the file", bytes.NewReader(in), int64(len(in)+1+c.Intn(1000)), false) {
		return
	}
	// another package behind it, of which nothing is said
	if !judge("another package behind it", bytes.NewReader(append(append([]byte(nil), in...), anotherPackage...)), int64(len(in)), false) {
		return
	}
	// bits flipped in the data of entries
	zr, err := zip.NewReader(bytes.NewReader(in), int64(len(in)))
	if err != nil {
		panic(err)
	}
	for _, f := range zr.File {
		off, err := f.DataOffset()
		if err != nil || f.CompressedSize64 == 0 {
			continue
		}
		for k := 0; k < 4; k++ {
			bad := append([]byte(nil), in...)
			p := off + c.Int63n(int64(f.CompressedSize64))
			if k == 0 {
				p = off + int64(f.CompressedSize64) - 1
			}
			bad[p] ^= 1 << c.Intn(8)
			c.Event("corrupted entries")
			if !judge(fmt.Sprintf("a bit flipped in %q (byte %d of %d)", f.Name, p-off, f.CompressedSize64), bytes.NewReader(bad), int64(len(bad)), false) {
				return
			}
		}
	}
	// what the directory or a local header says of an entry is wrong
	for i, f := range zr.File {
		if f.CompressedSize64 == 0 {
			continue
		}
		for _, k := range []int{c.Intn(2), 2 + c.Intn(4)} {
			what, b := damagedHeader(c, zr, i, k)
			c.Event("damaged headers")
			if !judge(fmt.Sprintf("entry %q with %s", f.Name, what), bytes.NewReader(b), int64(len(b)), false) {
				return
			}
		}
		off, err := f.DataOffset()
		if err != nil {
			continue
		}
		bad := append([]byte(nil), in...)
		p := off - int64(len(f.Name)) - 1 - c.Int63n(30)
		if p < 0 {
			continue
		}
		bad[p] ^= 1 << c.Intn(8)
		c.Event("damaged headers")
		if !judge(fmt.Sprintf("a bit flipped in the local header of %q", f.Name), bytes.NewReader(bad), int64(len(bad)), false) {
			return
		}
	}
	// the XML parts are cut
	ip, err := readPkg(in)
	if err != nil {
		panic(err)
	}
	for _, name := range []string{docPart, relsPart} {
		data, ok := ip.get(name)
		if !ok {
			continue
		}
		end := bytes.LastIndexByte(bytes.TrimRight(data, " \r\n\t"), '>')
		for _, n := range c.cuts(end+1, max/2) {
			cut := &Pkg{Parts: append([]Part(nil), ip.Parts...)}
			cut.replace(name, data[:n])
			c.Event("truncated parts")
			// store everything: fast
			b := cut.storeBytes()
			if !judge(fmt.Sprintf("%s cut at %d/%d: ...%q", name, n, len(data), tail(data[:n])), bytes.NewReader(b), int64(len(b)), true) {
				return
			}
		}
	}
	if points >= 20 {
		c.Distinct(hash(in))
	}
	c.EventN("fault points", points)
	c.Sample(fmt.Sprintf("%d bytes, %d entries, %d reads, %d fault points", len(in), len(zr.File), fr.n, points))
}

// damagedHeader writes the package again with one entry misdescribed.
func damagedHeader(c *Ctx, zr *zip.Reader, at, kind int) (what string, out []byte) {
	var buf bytes.Buffer
	zw := zip.NewWriter(&buf)
	for i, f := range zr.File {
		h := f.FileHeader
		h.Extra = nil
		h.Flags &^= 8 // no data descriptor
		if i == at {
			switch kind {
			case 0, 1:
				h.Method = []uint16{1, 6, 9, 12, 14, 93, 95, 98, 99}[c.Intn(9)]
				what = fmt.Sprintf("method %d", h.Method)
			case 2:
				h.CRC32 ^= 1 << c.Intn(32)
				what = "another checksum"
			case 3:
				h.UncompressedSize64++
				what = "a size too large"
			case 4:
				h.UncompressedSize64--
				what = "a size too small"
			case 5:
				h.CompressedSize64 -= 1 + uint64(c.Int63n(int64(h.CompressedSize64)))
				what = "a compressed size too small"
			}
		}
		w, err := zw.CreateRaw(&h)
		if err != nil {
			panic(err)
		}
		r, err := f.OpenRaw()
		if err != nil {
			panic(err)
		}
		_, _ = io.Copy(w, io.LimitReader(r, int64(h.CompressedSize64)))
	}
	if err := zw.Close(); err != nil {
		panic(err)
	}
	return what, buf.Bytes()
}

func tail(b []byte) []byte {
	if len(b) > 30 {
		return b[len(b)-30:]
	}
	return b
}

// storeBytes writes the package without compression.
func (p *Pkg) storeBytes() []byte {
	var buf bytes.Buffer
	zw := zip.NewWriter(&buf)
	for _, x := range p.Parts {
		w, err := zw.CreateHeader(&zip.FileHeader{Name: x.Name, Method: zip.Store})
		if err != nil {
			panic(err)
		}
		_, _ = w.Write(x.Data)
	}
	if err := zw.Close(); err != nil {
		panic(err)
	}
	return buf.Bytes()
}
