package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"strings"
	"syscall"

	docx "github.com/fumiama/go-docx"
)

func init() {
	register(&Prop{ID: "C13", Quick: 1500, Deep: 40000, Run: runC13,
		Rule: "documents (built, parsed, split) saved into a writer that fails at every single write call, at offsets all over the output (all of them for small documents), with full, partial and short writes, and from templates and packages whose files fail to open or read at every point; WriteTo must report each fault that was delivered and leave the document able to save everything afterwards; non-trivial: a document with at least 20 fault points",
		Need: map[string]int{"writer faults delivered": 8000, "source faults delivered": 1500, "saves after faults": 1500, "saves to other kinds of destinations": 500}})
}

var errInjected = errors.New("injected fault")

// writeErrors are what writers fail with.
var writeErrors = []error{errInjected, io.EOF, io.ErrShortWrite, io.ErrClosedPipe, io.ErrUnexpectedEOF, os.ErrClosed, syscall.ENOSPC, syscall.EPIPE, context.Canceled, os.ErrDeadlineExceeded, io.ErrNoProgress, fs.ErrInvalid}

// faultWriter fails at a write call or when a byte budget is exhausted.
type faultWriter struct {
	buf    bytes.Buffer
	call   int // fail at this call (0: never)
	budget int // fail after so many bytes (-1: never)
	once   bool
	mode   int // 0: nothing written + error, 1: half + error, 2: short write without error, 3: everything written but an error
	n      int
	hits   int
	err    error
}

func (w *faultWriter) Write(p []byte) (int, error) {
	w.n++
	fail := (w.call > 0 && (w.n == w.call || (!w.once && w.n > w.call))) || (w.budget >= 0 && w.buf.Len()+len(p) > w.budget && (!w.once || w.hits == 0))
	if !fail || len(p) == 0 {
		w.buf.Write(p)
		return len(p), nil
	}
	w.hits++
	errInjected := w.err
	if errInjected == nil {
		errInjected = writeErrors[len(p)%len(writeErrors)]
	}
	switch w.mode {
	case 1:
		k := len(p) / 2
		if w.budget >= 0 && w.call == 0 {
			k = w.budget - w.buf.Len()
			if k < 0 {
				k = 0
			}
		}
		w.buf.Write(p[:k])
		return k, errInjected
	case 2:
		k := len(p) - 1
		w.buf.Write(p[:k])
		return k, io.ErrShortWrite
	case 3:
		w.buf.Write(p)
		return len(p), errInjected
	}
	return 0, errInjected
}

// faultFS is a template file system with faults.
type faultFS struct {
	fs     fs.FS
	open   string // this file cannot be opened
	read   string // this file cannot be read
	off    int    // bytes that can be read before
	kind   int    // 0: error alone, 1: data and error together
	hits   int
	opened map[*faultFile]bool
}

type faultFile struct {
	fs.File
	o    *faultFS
	name string
	n    int
}

func (f *faultFS) Open(name string) (fs.File, error) {
	if f.open != "" && strings.HasSuffix(name, f.open) {
		f.hits++
		return nil, &fs.PathError{Op: "open", Path: name, Err: errInjected}
	}
	x, err := f.fs.Open(name)
	if err != nil {
		return nil, err
	}
	ff := &faultFile{x, f, name, 0}
	if f.opened == nil {
		f.opened = map[*faultFile]bool{}
	}
	f.opened[ff] = true
	return ff, nil
}

func (f *faultFile) Read(p []byte) (int, error) {
	if f.o.read == "" || !strings.HasSuffix(f.name, f.o.read) {
		return f.File.Read(p)
	}
	if f.n >= f.o.off {
		f.o.hits++
		return 0, errInjected
	}
	if len(p) > f.o.off-f.n {
		p = p[:f.o.off-f.n]
	}
	n, err := f.File.Read(p)
	f.n += n
	if err == nil && f.o.kind == 1 && f.n >= f.o.off {
		f.o.hits++
		return n, errInjected
	}
	return n, err
}

func (f *faultFile) Close() error {
	delete(f.o.opened, f)
	return f.File.Close()
}

// faultReaderAt is the backing store of a parsed package.
type faultReaderAt struct {
	data []byte
	call int // fail at this call, counted from arming
	once bool
	arm  bool
	n    int
	hits int
	mode int // 0: error, 1: half the bytes + error, 2: io.ErrUnexpectedEOF, 3: early io.EOF
}

func (r *faultReaderAt) ReadAt(p []byte, off int64) (int, error) {
	if off >= int64(len(r.data)) {
		return 0, io.EOF
	}
	n := copy(p, r.data[off:])
	if r.arm {
		r.n++
		if r.n == r.call || (!r.once && r.n > r.call) {
			r.hits++
			switch r.mode {
			case 1:
				return n / 2, errInjected
			case 2:
				return 0, io.ErrUnexpectedEOF
			case 3:
				return n / 2, io.EOF
			}
			return 0, errInjected
		}
	}
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

// samePackage compares two saved packages part by part.
func (c *Ctx) samePackage(sig, what string, want map[string][]byte, out []byte) bool {
	pk, err := readPkg(out)
	if err != nil {
		c.Violate(sig, "%s: %v", what, err)
		return false
	}
	got := pk.asMap()
	for n, b := range want {
		g, ok := got[n]
		if !ok {
			c.Violate(sig, "%s: part %q is missing", what, n)
			return false
		}
		if !bytes.Equal(g, b) {
			c.Violate(sig, "%s: part %q has %d bytes (%s), want %d bytes (%s)", what, n, len(g), hash(g), len(b), hash(b))
			return false
		}
	}
	for n := range got {
		if _, ok := want[n]; !ok {
			c.Violate(sig, "%s: part %q appeared", what, n)
			return false
		}
	}
	return true
}

// richWriter can do more than writing, none of which is for a save to use
// unless all it does comes to writing the package behind what is there.
type richWriter struct {
	buf    bytes.Buffer
	budget int // fail after so many bytes (-1: never)
	hits   int
	closed bool
}

func (w *richWriter) Write(p []byte) (int, error) {
	if w.closed {
		return 0, os.ErrClosed
	}
	if w.budget >= 0 && w.buf.Len()+len(p) > w.budget {
		w.hits++
		k := w.budget - w.buf.Len()
		if k < 0 {
			k = 0
		}
		w.buf.Write(p[:k])
		return k, errInjected
	}
	return w.buf.Write(p)
}
func (w *richWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }
func (w *richWriter) WriteByte(b byte) error            { _, err := w.Write([]byte{b}); return err }
func (w *richWriter) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{w}, r)
}
func (w *richWriter) Len() int                                       { return w.buf.Len() }
func (w *richWriter) Reset()                                         { w.buf.Reset() }
func (w *richWriter) Truncate(n int)                                 { w.buf.Truncate(n) }
func (w *richWriter) Flush() error                                   { return nil }
func (w *richWriter) Close() error                                   { w.closed = true; return nil }
func (w *richWriter) Seek(int64, int) (int64, error)                 { return 0, nil }
func (w *richWriter) WriteAt(p []byte, off int64) (n int, err error) { return 0, errInjected }

// destinations saves to writers of other kinds, that hold something already:
// the package comes behind it, in full, and their faults are reported.
func (c *Ctx) destinations(d *docx.Docx, want map[string][]byte) bool {
	before := []byte("before the package")[:c.Intn(19)]
	then := func(what string, got []byte, err error) bool {
		c.Event("saves to other kinds of destinations")
		if err != nil {
			c.Violate("save-failed", "saving to %s fails: %v", what, err)
			return false
		}
		if !bytes.HasPrefix(got, before) {
			c.Violate("destination", "saving to %s changes what it held before", what)
			return false
		}
		return c.samePackage("destination", "saved to "+what, want, got[len(before):])
	}
	dir, err := os.MkdirTemp("", "c13")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	var buf bytes.Buffer
	buf.Write(before)
	_, err = d.WriteTo(&buf)
	if !then("a buffer", buf.Bytes(), err) {
		return false
	}
	rw := &richWriter{budget: -1}
	rw.buf.Write(before)
	_, err = d.WriteTo(rw)
	if !then("a writer that can do more", rw.buf.Bytes(), err) {
		return false
	}
	if rw.closed {
		c.Violate("destination", "saving closes the destination")
		return false
	}
	size := rw.buf.Len()
	rw = &richWriter{budget: c.Intn(size)}
	if _, err = d.WriteTo(rw); err == nil && rw.hits > 0 {
		c.Violate("unreported", "WriteTo returns no error after a fault of a writer that can do more, at byte %d of %d", rw.budget, size)
		return false
	}
	f, err := os.Create(dir + "/file")
	if err != nil {
		panic(err)
	}
	_, _ = f.Write(before)
	_, err = d.WriteTo(f)
	var err2 error
	if err == nil {
		_, err2 = f.Write([]byte("."))
	}
	f.Close()
	b, _ := os.ReadFile(dir + "/file")
	if err2 != nil || !bytes.HasSuffix(b, []byte(".")) {
		c.Violate("destination", "after saving to a file, nothing can be written behind: %v", err2)
		return false
	}
	if !then("a file", b[:len(b)-1], err) {
		return false
	}
	if _, err = d.WriteTo(f); err == nil {
		c.Violate("unreported", "WriteTo returns no error for a closed file")
		return false
	}
	g, err := os.Open(dir + "/file")
	if err != nil {
		panic(err)
	}
	if _, err = d.WriteTo(g); err == nil {
		c.Violate("unreported", "WriteTo returns no error for a file opened for reading")
	}
	g.Close()
	if full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0); err == nil {
		_, err = d.WriteTo(full)
		full.Close()
		c.Event("saves to a full device")
		if err == nil {
			c.Violate("unreported", "WriteTo returns no error for a full device")
		}
	}
	pr, pw := io.Pipe()
	cut := c.Intn(size - len(before))
	go func() { _, _ = io.CopyN(io.Discard, pr, int64(cut)); pr.Close() }()
	if _, err = d.WriteTo(pw); err == nil {
		c.Violate("unreported", "WriteTo returns no error for a pipe closed after %d of %d bytes", cut, size-len(before))
	}
	pw.Close()
	return !c.Failed()
}

func runC13(c *Ctx) {
	var d *docx.Docx
	var src *faultReaderAt
	var tf *faultFS
	var other map[string][]byte
	kind := c.Intn(4)
	switch kind {
	case 0, 1: // on a template
		b := c.build(c.Intn(4), func(b *Builder) {
			if c.Chance(0.5) {
				b.NoDraw = true
			}
		})
		d = b.d
		tf = &faultFS{fs: docx.TemplateXMLFS}
		d.UseTemplate("default", docx.DefaultTemplateFilesList, tf)
	default:
		w := newWorld(c.Rand, WorldOpt{Items: c.Intn(4), Images: c.Intn(3), Links: c.Intn(2), Extra: true, Setup: copySafe})
		src = &faultReaderAt{data: w.bytes(c.Rand)}
		var err error
		other = w.Other
		d, err = docx.Parse(src, int64(len(src.data)))
		if err != nil {
			c.Violate("open-failed", "opening a generated package failed: %v", err)
			return
		}
		if kind == 3 && len(d.Document.Body.Items) > 0 {
			ds := d.SplitByParagraph(func(*docx.Paragraph) bool { return c.Intn(2) == 0 })
			if len(ds) > 0 {
				d = ds[c.Intn(len(ds))]
			}
		}
	}
	// now and then the first save fails
	if c.Intn(3) == 0 {
		c.Event("first saves that fail")
		if tf != nil {
			tf.read = docx.DefaultTemplateFilesList[c.Intn(len(docx.DefaultTemplateFilesList))]
			tf.off = c.Intn(400)
			tf.kind = c.Intn(2)
		} else {
			src.arm, src.call, src.once, src.mode = true, 1+c.Intn(12), true, c.Intn(3)
		}
		var err error
		if !c.guard("panic:source", "a first save that fails", func() { _, err = save(d) }) {
			return
		}
		if (err != nil) != ((tf != nil && tf.hits > 0) || (src != nil && src.hits > 0)) {
			c.Violate("unreported-source", "a first save from a source with a fault returns %v", err)
			return
		}
		if tf != nil {
			tf.read, tf.off, tf.hits = "", 0, 0
		} else {
			src.arm, src.n, src.hits = false, 0, 0
		}
	}
	var good bytes.Buffer
	cw := &faultWriter{budget: -1}
	if _, err := d.WriteTo(cw); err != nil {
		c.Violate("save-failed", "saving without any fault failed: %v", err)
		return
	}
	good.Write(cw.buf.Bytes())
	writes, size := cw.n, good.Len()
	gp, err := readPkg(good.Bytes())
	if err != nil {
		c.Violate("bad-zip", "saving without any fault gives %v", err)
		return
	}
	want := gp.asMap()
	given := map[string][]byte{} // what must be carried over unchanged
	if tf != nil {
		for _, n := range docx.DefaultTemplateFilesList {
			b, err := fs.ReadFile(docx.TemplateXMLFS, "xml/default/"+n)
			if err != nil {
				panic(err)
			}
			given[n] = b
		}
	} else {
		given = other
	}
	for n, b := range given {
		if n != docPart && n != relsPart && !bytes.Equal(b, want[n]) {
			if n == ctPart && len(want[n]) > 0 {
				continue // it may be extended
			}
			c.Violate("first-incomplete", "part %q has %d bytes (%s) in the first save that succeeds, want %d bytes (%s)", n, len(want[n]), hash(want[n]), len(b), hash(b))
			return
		}
	}
	if c.Intn(3) == 0 && !c.destinations(d, want) {
		return
	}
	points := 0
	intact := func(what string) bool {
		out, err := save(d)
		if err != nil {
			c.Violate("then-fails", "after %s, saving to a good writer fails: %v", what, err)
			return false
		}
		c.Event("saves after faults")
		return c.samePackage("then-incomplete", "saving after "+what, want, out)
	}
	try := func(w *faultWriter, viaCopy bool) bool {
		var err error
		what := fmt.Sprintf("a fault (mode %d, once %v) at write %d/%d or byte %d/%d", w.mode, w.once, w.call, writes, w.budget, size)
		ok := c.guard("panic:write", "WriteTo with "+what, func() {
			if viaCopy {
				_, err = io.Copy(w, d)
			} else {
				_, err = d.WriteTo(w)
			}
		})
		if !ok {
			return false
		}
		points++
		if w.hits == 0 {
			// the parts may be written in another order: not delivered this time
			if err != nil {
				c.Violate("phantom", "WriteTo reports %v although no write failed", err)
				return false
			}
			return c.samePackage("incomplete", "a save without a delivered fault", want, w.buf.Bytes())
		}
		c.Event("writer faults delivered")
		if err == nil {
			c.Violate("unreported", "WriteTo returns no error after %s (%d bytes came through)", what, w.buf.Len())
			return false
		}
		return true
	}
	// every write call
	for k := 1; k <= writes; k++ {
		if !try(&faultWriter{call: k, budget: -1, once: c.Intn(2) == 0, mode: c.Intn(4)}, c.Intn(8) == 0) {
			return
		}
		if c.Intn(10) == 0 && !intact("a write fault") {
			return
		}
	}
	// byte offsets: all of them if few, else a sample with the ends
	step := 1
	lim := 60
	if c.Tier == "thorough" {
		lim = 600
	}
	if size > lim {
		step = size / lim
	}
	for off := c.Intn(step); off < size; off += step {
		if !try(&faultWriter{budget: off, mode: c.Intn(2)}, false) {
			return
		}
	}
	for off := size - 1; off >= 0 && off > size-40; off-- {
		if !try(&faultWriter{budget: off, mode: c.Intn(2)}, false) {
			return
		}
	}
	if !intact("faults at many offsets") {
		return
	}
	fromSource := func(what string, hits *int) bool {
		var buf bytes.Buffer
		var err error
		*hits = 0
		if !c.guard("panic:source", "WriteTo with "+what, func() { _, err = d.WriteTo(&buf) }) {
			return false
		}
		points++
		if *hits == 0 {
			if err != nil {
				c.Violate("phantom", "WriteTo reports %v although no fault was delivered", err)
				return false
			}
			return c.samePackage("incomplete", "a save without a delivered fault", want, buf.Bytes())
		}
		c.Event("source faults delivered")
		if err == nil {
			c.Violate("unreported-source", "WriteTo returns no error after %s", what)
			return false
		}
		return true
	}
	if tf != nil {
		for _, n := range docx.DefaultTemplateFilesList {
			tf.open, tf.read = n, ""
			if !fromSource("template file "+n+" failing to open", &tf.hits) {
				return
			}
			b := want[n]
			for k := 0; k < 6; k++ {
				tf.open, tf.read, tf.kind = "", n, c.Intn(2)
				tf.off = []int{0, 1, len(b) / 2, len(b) - 1, len(b), c.Intn(len(b) + 1)}[k]
				if !fromSource(fmt.Sprintf("template file %s failing to be read at %d/%d", n, tf.off, len(b)), &tf.hits) {
					return
				}
			}
		}
		tf.open, tf.read = "", ""
		if !intact("template faults") {
			return
		}
	} else {
		src.arm, src.call, src.n = true, 1<<30, 0
		if _, err := save(d); err != nil {
			c.Violate("save-failed", "saving without any fault failed: %v", err)
			return
		}
		reads := src.n
		for k := 1; k <= reads; k++ {
			src.arm, src.call, src.once, src.mode, src.n = true, k, c.Intn(2) == 0, c.Intn(4), 0
			if src.mode == 3 {
				src.mode = 1 // an early end of file inside a section is C14's business
			}
			if !fromSource(fmt.Sprintf("read %d/%d of the original package failing (mode %d)", k, reads, src.mode), &src.hits) {
				return
			}
		}
		src.arm = false
		if !intact("read faults of the original package") {
			return
		}
	}
	c.EventN("fault points", points)
	if points >= 20 {
		c.Distinct(fmt.Sprint(kind, size, writes, hash(good.Bytes())))
	}
	c.Sample(fmt.Sprintf("kind %d: %d writes, %d bytes, %d fault points", kind, writes, size, points))
}
