package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing/fstest"
	"time"

	docx "github.com/fumiama/go-docx"
)

func init() {
	register(&Prop{ID: "C21", Quick: 20000, Deep: 300000, Run: runC21,
		Rule: "documents of every origin saved over the default template and over templates of random names with random file lists (any order, nested, empty, large, unlisted and missing files, with and without a template name, exchanged between saves), through a file system that counts what is opened and closed and that fails at chosen files; the package must hold exactly the listed files, every opened file must be closed, a missing or failing file must be reported; non-trivial: a template of at least 2 files",
		Need: map[string]int{"template saves": 10000, "template files compared": 20000, "files closed": 20000, "missing files reported": 1000, "templates exchanged": 2000, "pages": 1000, "pieces on templates": 1000}})
}

// memFS is a file system in memory that counts.
type memFS struct {
	files  map[string][]byte
	open   map[*memFile]bool
	opened map[string]int
	total  int
	noStat bool   // files cannot be described
	chunk  int    // at most so many bytes per read (0: any)
	bad    string // cannot be opened
	badErr error
	rot    string // cannot be read to the end
}

type memFile struct {
	*bytes.Reader
	fs   *memFS
	name string
	size int64
	n    int
}

func (m *memFS) Open(name string) (fs.File, error) {
	if !fs.ValidPath(name) {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrInvalid}
	}
	if m.bad != "" && m.bad == name {
		return nil, &fs.PathError{Op: "open", Path: name, Err: m.badErr}
	}
	b, ok := m.files[name]
	if !ok {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	f := &memFile{Reader: bytes.NewReader(b), fs: m, name: name, size: int64(len(b))}
	m.open[f] = true
	m.opened[name]++
	m.total++
	return f, nil
}

// memInfo describes a file.
type memInfo struct{ f *memFile }

func (i memInfo) Name() string       { return path.Base(i.f.name) }
func (i memInfo) Size() int64        { return i.f.size }
func (i memInfo) Mode() fs.FileMode  { return 0o444 }
func (i memInfo) ModTime() time.Time { return time.Time{} }
func (i memInfo) IsDir() bool        { return false }
func (i memInfo) Sys() interface{}   { return nil }

func (f *memFile) Stat() (fs.FileInfo, error) {
	if f.fs.noStat {
		return nil, fs.ErrInvalid
	}
	return memInfo{f}, nil
}

func (f *memFile) Close() error {
	if !f.fs.open[f] {
		return fs.ErrClosed
	}
	delete(f.fs.open, f)
	return nil
}

func (f *memFile) Read(p []byte) (int, error) {
	if f.fs.chunk > 0 && len(p) > f.fs.chunk {
		p = p[:f.fs.chunk]
	}
	if f.fs.rot == f.name && f.n*2 >= int(f.size) {
		return 0, errInjected
	}
	n, err := f.Reader.Read(p)
	f.n += n
	return n, err
}

// WriteTo must not bypass the faults.
func (f *memFile) WriteTo(w interface{ Write([]byte) (int, error) }) (n int64, err error) {
	buf := make([]byte, 4096)
	for {
		k, err := f.Read(buf)
		if k > 0 {
			x, werr := w.Write(buf[:k])
			n += int64(x)
			if werr != nil {
				return n, werr
			}
		}
		if err != nil {
			if err.Error() == "EOF" {
				err = nil
			}
			return n, err
		}
	}
}

// kinds of file systems: one that reads files by itself, one that is the part
// of a larger one, and directories on disk
type readFS struct{ *memFS }

func (r readFS) ReadFile(name string) ([]byte, error) {
	f, err := r.memFS.Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var b []byte
	p := make([]byte, 512)
	for {
		n, err := f.Read(p)
		b = append(b, p[:n]...)
		if err == io.EOF {
			return b, nil
		}
		if err != nil {
			return nil, err
		}
	}
}

func (c *Ctx) kindOfFS(m *memFS) fs.FS {
	switch c.Intn(5) {
	case 0:
		c.Event("file systems that read files")
		return readFS{m}
	case 1:
		c.Event("file systems by their Open alone")
		return struct{ fs.FS }{m}
	}
	return m
}

// template makes a template: its name, its list and its files as parts.
func (c *Ctx) template(m *memFS) (name string, list []string, parts map[string][]byte) {
	if c.Intn(4) > 0 {
		name = []string{"mine", "a b", "größe", "default", "t1/sub", "My Own", "UPPER", "a.b", "x%20y", "_"}[c.Intn(10)]
	}
	parts = map[string][]byte{}
	pool := []string{"[Content_Types].xml", "_rels/.rels", "docProps/app.xml", "word/styles.xml", "word/theme/theme1.xml", "word/fontTable.xml", "word/numbering.xml",
		"word/header1.xml", "custom/データ.bin", "a", "Custom/Mixed Case.BIN", ".hidden", "_x/a%20b.c", "word/settings.xml", "word/media.xml", "deep/er/and/deeper/x.y"}
	dir := ""
	if name != "" {
		dir = "xml/" + name + "/"
	}
	for _, i := range c.Perm(len(pool))[:c.Intn(len(pool)+1)] {
		n := pool[i]
		b := make([]byte, []int{0, 1, 100, 5000, 70000}[c.Intn(5)])
		c.Read(b)
		m.files[path.Join(dir, n)] = b
		if c.Intn(5) == 0 {
			continue // not listed
		}
		list = append(list, n)
		parts[n] = b
	}
	if c.Intn(60) == 0 { // very many files
		for i := many(c.Rand); i > 0; i-- {
			n := "many/f" + strconv.Itoa(i)
			b := []byte(strings.Repeat("x", i))
			m.files[path.Join(dir, n)] = b
			list = append(list, n)
			parts[n] = b
		}
	}
	if c.Intn(8) == 0 { // the template has a document of its own, which is not the document
		for _, n := range []string{docPart, relsPart} {
			m.files[path.Join(dir, n)] = []byte("<template/>")
			if c.Intn(2) == 0 {
				list = append(list, n)
			}
		}
	}
	return
}

var defaultList = strings.Join(docx.DefaultTemplateFilesList, "|")

func runC21(c *Ctx) {
	h := &Hist{c: c, sig: "template", Fresh: 7, W: map[string]int{"build": 3, "edit": 2, "append": 1, "split": 1, "delete": 1}, Setup: copySafe, MaxPool: 2}
	h.start(c.Intn(3))
	if c.Failed() || len(h.pool) == 0 {
		return
	}
	p := h.pick()
	d := p.d
	m := &memFS{files: map[string][]byte{}, open: map[*memFile]bool{}, opened: map[string]int{}}
	for round := 1 + c.Intn(3); round > 0 && !c.Failed(); round-- {
		if c.Intn(4) == 0 { // a page
			want := len(d.Document.Body.Items) + 1
			var got *docx.Docx
			w, hh := 11906, 16838
			if c.Intn(2) == 0 {
				got = d.WithA4Page()
			} else {
				w, hh = 16838, 23811
				got = d.WithA3Page()
			}
			p.mod.Items = append(p.mod.Items, sectNode(fmt.Sprint(w), fmt.Sprint(hh)))
			c.Event("pages")
			if got != d {
				c.Violate("chain", "WithA4Page or WithA3Page does not return its document")
			}
			s, ok := d.Document.Body.Items[len(d.Document.Body.Items)-1].(*docx.SectPr)
			if len(d.Document.Body.Items) != want || !ok || s.PgSz == nil || s.PgSz.W != w || s.PgSz.H != hh {
				c.Violate("page", "a page of %dx%d is not the last of %d items", w, hh, want)
				return
			}
		}
		again := false // pieces were given other templates
		var parts map[string][]byte
		var list, listed []string
		onDisk := false
		if c.Intn(4) == 0 {
			if d.WithDefaultTheme() != d {
				c.Violate("chain", "WithDefaultTheme does not return its document")
			}
			parts = templateParts()
			if len(parts) < 7 {
				c.Violate("default", "the default template has %d files", len(parts))
			}
			err := fs.WalkDir(docx.TemplateXMLFS, "xml/default", func(p string, e fs.DirEntry, err error) error {
				if err == nil && !e.IsDir() {
					if _, ok := parts[strings.TrimPrefix(p, "xml/default/")]; !ok {
						c.Violate("default", "the file %s of the default template is not used", p)
					}
				}
				return err
			})
			if err != nil {
				c.Violate("default", "the default template cannot be read: %v", err)
			}
		} else {
			m.files = map[string][]byte{}
			var name string
			name, list, parts = c.template(m)
			listed = append([]string(nil), list...)
			m.noStat = c.Intn(2) == 0
			m.chunk = []int{0, 0, 1000, 7}[c.Intn(4)]
			var tfs fs.FS = c.kindOfFS(m)
			if c.Intn(12) == 0 { // the same on disk
				dir, err := os.MkdirTemp("", "c21")
				if err != nil {
					panic(err)
				}
				defer os.RemoveAll(dir)
				for n, b := range m.files {
					if err := os.MkdirAll(filepath.Join(dir, filepath.Dir(n)), 0o755); err != nil {
						panic(err)
					}
					if err := os.WriteFile(filepath.Join(dir, n), b, 0o644); err != nil {
						panic(err)
					}
				}
				tfs, onDisk = os.DirFS(dir), true
				c.Event("templates on disk")
			}
			if d.UseTemplate(name, list, tfs) != d {
				c.Violate("chain", "UseTemplate does not return its document")
			}
			c.Trace("template %q %q", name, list)
			if len(list) >= 2 {
				c.Distinct(name + strings.Join(list, "|") + hash(m.files[list[0]]))
			}
			c.Sample(fmt.Sprintf("%q: %q", name, list))
			if c.Intn(3) == 0 && len(list) > 0 && !onDisk { // one that fails
				miss := list[c.Intn(len(list))]
				if miss == docPart || miss == relsPart { // need not be read
					continue
				}
				full := miss
				if name != "" {
					full = "xml/" + name + "/" + miss
				}
				m.bad, m.rot = "", ""
				keep, had := m.files[full]
				what := "missing"
				switch c.Intn(3) {
				case 0:
					delete(m.files, full)
				case 1:
					m.bad, m.badErr = full, errInjected
					what = "failing to open"
				case 2:
					m.rot = full
					what = "failing to be read"
				}
				_, err := save(d)
				switch {
				case err == nil:
					c.Violate("missing", "saving reports nothing although the template file %s is %s", full, what)
				case what == "missing" && !errors.Is(err, fs.ErrNotExist), what != "missing" && !errors.Is(err, errInjected):
					c.Violate("missing-error", "the error for the template file %s (%s) is %v", full, what, err)
				}
				c.Event("missing files reported")
				c.allClosed(m, "a failed save")
				if had {
					m.files[full] = keep
				}
				m.bad, m.rot = "", ""
			}
		}
		m.opened = map[string]int{}
		m.total = 0
		out := c.mustSave(d, "on a template")
		if out == nil {
			return
		}
		c.Event("template saves")
		c.allClosed(m, "a save")
		pk, err := readPkg(out)
		if err != nil {
			c.Violate("bad-zip", "on a template: %v", err)
			return
		}
		got := map[string][]byte{}
		for _, x := range pk.Parts {
			if x.Name == docPart || x.Name == relsPart || strings.HasPrefix(x.Name, "word/media/") {
				continue
			}
			got[x.Name] = x.Data
		}
		var ns []string
		for n := range parts {
			ns = append(ns, n)
		}
		for n := range got {
			if _, ok := parts[n]; !ok {
				ns = append(ns, n)
			}
		}
		sort.Strings(ns)
		for _, n := range ns {
			w, ok := parts[n]
			g, ok2 := got[n]
			c.Event("template files compared")
			if !ok || !ok2 || !bytes.Equal(w, g) {
				c.Violate("files", "the template file %s: in the template %v (%d bytes), in the package %v (%d bytes)", n, ok, len(w), ok2, len(g))
				return
			}
		}
		doc, _ := pk.get(docPart)
		if bytes.Contains(doc, []byte("<template/>")) {
			c.Violate("own-document", "the document is the file of the template")
		}
		s := &Sound{Pkg: pk}
		if s.Doc, err = parseStrict(doc); err != nil {
			c.Violate("malformed", "on a template: %v", err)
			return
		}
		rx, _ := pk.get(relsPart)
		if s.Rels, err = parseRels(rx); err != nil {
			c.Violate("rels-malformed", "on a template: %v", err)
			return
		}
		s.ByID = map[string]Rel{}
		for _, r := range s.Rels {
			s.ByID[r.ID] = r
		}
		c.compareBodies("template:content", "on a template", p.mod.body(), p.mod.Refs, s)
		if c.Intn(4) == 0 { // pieces have the template too
			for _, q := range d.SplitByParagraph(func(*docx.Paragraph) bool { return c.Intn(3) == 0 }) {
				b := c.mustSave(q, "a piece on a template")
				if b == nil {
					return
				}
				qk, err := readPkg(b)
				if err != nil {
					c.Violate("bad-zip", "a piece on a template: %v", err)
					return
				}
				for _, n := range ns {
					g, ok := qk.get(n)
					if !ok || !bytes.Equal(g, parts[n]) {
						c.Violate("piece-files", "the template file %s in a piece: there %v (%d bytes), in the template %d bytes", n, ok, len(g), len(parts[n]))
						return
					}
				}
				c.Event("pieces on templates")
				c.allClosed(m, "a save of a piece")
				if c.Intn(3) == 0 { // which may change theirs
					q.UseTemplate("", []string{"piece/own"}, fstest.MapFS{"piece/own": {Data: []byte("own")}})
					b := c.mustSave(q, "a piece on a template of its own")
					if b == nil {
						return
					}
					if pk, err := readPkg(b); err != nil || len(pk.Parts) < 2 {
						c.Violate("piece-files", "a piece on a template of its own is saved as %d parts, %v", len(pk.Parts), err)
						return
					}
					c.Event("pieces on templates of their own")
					again = true
				}
			}
		}
		if list != nil && strings.Join(list, "|") != strings.Join(listed, "|") {
			c.Violate("list", "the list of the template has become %q, from %q", list, listed)
			return
		}
		if l := strings.Join(docx.DefaultTemplateFilesList, "|"); l != defaultList {
			c.Violate("list", "the default list of template files has become %q, from %q", l, defaultList)
			return
		}
		if again { // that of the document stays
			b := c.mustSave(d, "a document of which pieces have other templates")
			if b == nil {
				return
			}
			pk2, err := readPkg(b)
			if err != nil {
				c.Violate("bad-zip", "on a template: %v", err)
				return
			}
			for n, w := range parts {
				if n == docPart || n == relsPart {
					continue
				}
				if g, ok := pk2.get(n); !ok || !bytes.Equal(g, w) {
					c.Violate("files", "after pieces were given other templates, the template file %s is in the package %v (%d bytes), want %d bytes", n, ok, len(g), len(w))
					return
				}
			}
		}
		if round > 1 {
			c.Event("templates exchanged")
		}
	}
}

// allClosed judges the files of a template after a save.
func (c *Ctx) allClosed(m *memFS, what string) {
	c.EventN("files closed", m.total-len(m.open))
	for f := range m.open {
		c.Violate("left-open", "the template file %s is left open by %s", f.name, what)
		return
	}
}
