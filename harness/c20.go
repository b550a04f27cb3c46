package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	docx "github.com/fumiama/go-docx"
)

func init() {
	register(&Prop{ID: "C20", Quick: 5000, Deep: 40000, Run: runC20, CaseCPU: 60,
		Rule: "runs of the built command line program in a scratch directory on generated packages (and cut, damaged, missing ones) under ordinary and odd file names, with all combinations of its flags, and generating its demonstration document; standard output, exit code, the set of files written and the content of each are compared with the models; non-trivial: a run that writes at least one file",
		Need: map[string]int{"runs": 1500, "outputs compared": 1200, "texts compared": 800, "runs that must fail": 100, "runs where files were there before": 200, "runs with a file that cannot be written": 50, "documents generated": 30}})
}

var cliPath = os.Getenv("VERIF_CLI")

// cli runs the program.
func (c *Ctx) cli(dir string, args ...string) (out string, code int, ok bool) {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, cliPath, args...)
	cmd.Dir = dir
	cmd.Env = []string{"HOME=" + dir, "TMPDIR=" + dir, "GOTRACEBACK=single"}
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	c.Event("runs")
	if ctx.Err() != nil {
		c.Violate("hang", "the program does not end within a minute: %q", args)
		return "", -1, false
	}
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) {
		panic(err)
	}
	if ee != nil {
		code = ee.ExitCode()
		c.Trace("stderr: %s", short(se.String()))
	}
	return so.String(), code, true
}

// filesIn lists what is in a directory.
func filesIn(dir string) (fs []string) {
	_ = filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			r, _ := filepath.Rel(dir, p)
			fs = append(fs, r)
		}
		return nil
	})
	sort.Strings(fs)
	return
}

// noProps removes the paragraph properties of the body.
func noProps(items []*Node) []*Node {
	var r []*Node
	strip := func(p *Node) {
		p.Kids = elemKidsNot(p, "w:pPr")
	}
	for _, it := range items {
		m := it.clone()
		if m.Tag == "w:p" {
			strip(m)
		}
		if m.Tag == "w:tbl" {
			for _, tr := range m.all("w:tr") {
				for _, tc := range tr.all("w:tc") {
					for _, p := range tc.all("w:p") {
						strip(p)
					}
				}
			}
		}
		r = append(r, m)
	}
	return r
}

func elemKidsNot(n *Node, tag string) (ks []*Node) {
	for _, k := range n.Kids {
		if k.Tag != tag {
			ks = append(ks, k)
		}
	}
	return
}

// printed is what the program prints of a document.
func printed(items []*Node, rf Refs) string {
	var sb strings.Builder
	sb.WriteString("Plain text:\n")
	for _, it := range items {
		switch it.Tag {
		case "w:p":
			sb.WriteString(plainText(it, rf, nil) + "\n")
		case "w:tbl":
			sb.WriteString(tableText(it, rf) + "\n")
		}
	}
	sb.WriteString("End of main\n")
	return sb.String()
}

func runC20(c *Ctx) {
	if cliPath == "" {
		panic("VERIF_CLI is not set")
	}
	dir, err := os.MkdirTemp("", "c20")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	if c.Intn(25) == 0 {
		c.generate(dir)
		return
	}
	many := c.Intn(12) == 0
	k := 1 + c.Intn(7)
	if many { // many files may come of it
		k = 12 + c.Intn(30)
	}
	w := newWorld(c.Rand, WorldOpt{Items: k, Images: c.Intn(3), Links: c.Intn(3), OddIDs: c.Chance(0.4), Types: imageFormats, Setup: copySafe})
	in := w.bytes(c.Rand)
	bad := ""
	switch c.Intn(12) {
	case 0:
		in, bad = in[:c.Intn(len(in))], "cut"
	case 1:
		bad = "missing"
	}
	// where the file is
	sub := []string{"", "", "in/", "a b/", "x.y/"}[c.Intn(5)]
	if sub != "" {
		if err := os.MkdirAll(filepath.Join(dir, sub), 0o755); err != nil {
			panic(err)
		}
	}
	stem, ext := []string{"file", "größe", "a b", "v1.2", "-"}[c.Intn(5)], []string{".docx", ".docx", ".DOCX", ".zip", ""}[c.Intn(5)]
	base := stem + ext
	if i := strings.LastIndex(base, "."); i >= 0 {
		stem, ext = base[:i], base[i:]
	}
	name := sub + base
	abs := c.Intn(3) == 0
	arg := name
	if abs {
		arg = filepath.Join(dir, name)
	}
	if bad != "missing" {
		if err := os.WriteFile(filepath.Join(dir, name), in, 0o644); err != nil {
			panic(err)
		}
	}
	// what earlier runs have left is written over, or left alone
	stale := map[string][]byte{}
	obstacle := ""
	outNames := []string{"unmarshal_" + base, "dup_" + base, "unmarshal_" + stem + "_split0" + ext, "unmarshal_" + stem + "_split1" + ext, "unmarshal_" + stem + "_split9" + ext}
	switch c.Intn(8) {
	case 0, 1:
		for _, n := range outNames {
			if c.Intn(2) == 0 {
				b := make([]byte, []int{0, 10, 30000 + 40*len(in)}[c.Intn(3)])
				c.Read(b)
				stale[sub+n] = b
				if err := os.WriteFile(filepath.Join(dir, sub+n), b, 0o644); err != nil {
					panic(err)
				}
			}
		}
		c.Event("runs where files were there before")
	case 2: // one that cannot be written
		obstacle = sub + outNames[c.Intn(4)]
		if _, err := os.Stat("/dev/full"); err == nil && c.Intn(2) == 0 {
			err = os.Symlink("/dev/full", filepath.Join(dir, obstacle))
			if err != nil {
				panic(err)
			}
		} else if err := os.Mkdir(filepath.Join(dir, obstacle), 0o755); err != nil {
			panic(err)
		}
	}
	before := filesIn(dir)
	args := []string{"-a", "-f", arg}
	items := []*Node{}
	rf := w.refs()
	for _, it := range w.Doc.first("w:body").Kids {
		if it.Tag != "" {
			items = append(items, it.clone())
		}
	}
	clean, drop, unm, dup := c.Intn(4) == 0, c.Intn(4) == 0, c.Intn(2) == 0, 0
	var re *regexp.Regexp
	if clean {
		args = append(args, "-c")
		for _, it := range items {
			dropItem(it, "NilPicture")
		}
	}
	if drop {
		args = append(args, "-p")
		items = noProps(items)
	}
	if unm {
		args = append(args, "-u")
	}
	if many || c.Intn(3) == 0 {
		re = regexp.MustCompile([]string{"[a-z]", "7", "^$", "t", ".*", "\t", "\\n", "no such text"}[c.Intn(8)])
		args = append(args, "-s", re.String())
	}
	if c.Intn(3) == 0 {
		dup = c.Intn(5)
		if c.Intn(8) == 0 && w.Doc.count() < 80 {
			c.Event("large numbers of copies")
			dup = []int{9, 10, 11, 100, 255, 256, 257, 300}[c.Intn(8)]
		}
		args = append(args, "-d", strconv.Itoa(dup))
	}
	c.Trace("%q", args)
	out, code, ok := c.cli(dir, args...)
	if !ok {
		return
	}
	if bad == "cut" {
		if _, err := open(in); err == nil {
			return // nothing of it was cut
		}
	}
	if bad != "" {
		c.Event("runs that must fail")
		if code == 0 {
			c.Violate("bad-accepted", "the program succeeds on a file that is %s: %q", bad, args)
		}
		if got := filesIn(dir); strings.Join(got, "|") != strings.Join(before, "|") {
			c.Violate("bad-writes", "the program writes files for a file that is %s: %q", bad, got)
		}
		for n, b := range stale {
			if g, err := os.ReadFile(filepath.Join(dir, n)); err != nil || !bytes.Equal(g, b) {
				c.Violate("bad-writes", "the program writes %q for a file that is %s", n, bad)
			}
		}
		return
	}
	if obstacle != "" {
		must := unm && obstacle == sub+"unmarshal_"+base || dup > 1 && obstacle == sub+"dup_"+base || re != nil && len(items) > 0 && obstacle == sub+"unmarshal_"+stem+"_split0"+ext
		if must {
			c.Event("runs with a file that cannot be written")
			if code == 0 {
				c.Violate("unwritable", "%q succeeds although %q cannot be written", args, obstacle)
			}
		}
		if must || code != 0 { // a later piece, or nothing of interest
			if b, err := os.ReadFile(filepath.Join(dir, name)); err != nil || !bytes.Equal(b, in) {
				c.Violate("input", "%q changes the file it reads", args)
			}
			return
		}
	}
	if code != 0 {
		c.ViolateD("exit", w.Doc.str(), "the program fails with exit code %d: %q", code, args)
		return
	}
	c.Event("texts compared")
	if want := printed(items, rf); !matchPattern(want, xmlClean(out)) {
		c.ViolateD("text", w.Doc.str(), "%q prints %q, want %q", args, short(out), short(want))
	}
	for i := range items {
		items[i] = items[i].resolved(rf)
	}
	want := map[string][]*Node{}
	if unm {
		want[sub+"unmarshal_"+base] = items
	}
	if dup > 1 {
		all := []*Node{sectNode("11906", "16838")}
		for i := 0; i < dup; i++ {
			all = append(all, copiedItems(items)...)
		}
		want[sub+"dup_"+base] = all
	}
	if re != nil {
		// the texts are those that the library renders (C17 judges them)
		d, err := open(in)
		if err != nil {
			c.Violate("open-failed", "opening a generated package fails: %v", err)
			return
		}
		if clean {
			d.Document.Body.DropDrawingOf("NilPicture")
		}
		var pieces [][]*Node
		for i, it := range d.Document.Body.Items {
			p, isp := it.(*docx.Paragraph)
			if i == 0 || isp && re.MatchString(p.String()) {
				pieces = append(pieces, nil)
			}
			pieces[len(pieces)-1] = append(pieces[len(pieces)-1], copied(items[i], Refs{}))
		}
		if len(pieces) > 10 {
			c.Event("splits into more than ten")
		}
		for i, p := range pieces {
			want[sub+"unmarshal_"+stem+"_split"+strconv.Itoa(i)+ext] = p
		}
	}
	left := map[string]bool{}
	for _, f := range filesIn(dir) {
		left[f] = true
	}
	delete(left, name)
	for f, its := range want {
		if !left[f] {
			c.Violate("not-written", "%q does not write %q, but %q", args, f, filesIn(dir))
			return
		}
		delete(left, f)
		b, err := os.ReadFile(filepath.Join(dir, f))
		if err != nil {
			panic(err)
		}
		s := c.checkPackage(b, SoundOpt{AllowDangling: genDangling})
		if s == nil {
			return
		}
		c.Event("outputs compared")
		c.compareBodies("output", fmt.Sprintf("%q of %q", f, args), bodyOf(its), Refs{}, s)
	}
	for f := range left {
		if b, ok := stale[f]; ok {
			if g, err := os.ReadFile(filepath.Join(dir, f)); err != nil || !bytes.Equal(g, b) {
				c.Violate("extra", "%q changes %q", args, f)
			}
			continue
		}
		if f == obstacle {
			continue
		}
		c.Violate("extra", "%q also writes %q", args, f)
	}
	if b, err := os.ReadFile(filepath.Join(dir, name)); err != nil || !bytes.Equal(b, in) {
		c.Violate("input", "%q changes the file it reads", args)
	}
	if len(want) > 0 {
		c.Distinct(strings.Join(args, " ") + w.Doc.canon())
	}
	c.Sample(fmt.Sprintf("%q writes %d files", args, len(want)))
}

// generate makes the demonstration document.
func (c *Ctx) generate(dir string) {
	src := filepath.Join(os.Getenv("VERIF_REPO"), "testdata")
	es, err := os.ReadDir(src)
	if err != nil {
		panic(err)
	}
	_ = os.Mkdir(filepath.Join(dir, "testdata"), 0o755)
	files := map[string]string{}
	for _, e := range es {
		b, err := os.ReadFile(filepath.Join(src, e.Name()))
		if err != nil || e.IsDir() {
			continue
		}
		files[hash(b)] = e.Name()
		if err := os.WriteFile(filepath.Join(dir, "testdata", e.Name()), b, 0o644); err != nil {
			panic(err)
		}
	}
	args := []string{}
	name := "new-file.docx"
	if c.Intn(2) == 0 {
		name = "demo.docx"
		args = append(args, "-f", name)
	}
	unm, dup := c.Intn(2) == 0, c.Intn(4)
	if unm {
		args = append(args, "-u")
	}
	if dup > 0 {
		args = append(args, "-d", strconv.Itoa(dup))
	}
	if c.Intn(6) == 0 { // without its pictures
		_ = os.RemoveAll(filepath.Join(dir, "testdata"))
		_, code, ok := c.cli(dir, args...)
		if !ok {
			return
		}
		c.Event("runs that must fail")
		if code == 0 {
			c.Violate("bad-accepted", "the program succeeds without its pictures")
		}
		return
	}
	if c.Intn(3) == 0 { // an earlier one
		for _, n := range []string{name, "unmarshal_" + name, "dup_" + name} {
			if err := os.WriteFile(filepath.Join(dir, n), make([]byte, 4<<20), 0o644); err != nil {
				panic(err)
			}
		}
	}
	out, code, ok := c.cli(dir, args...)
	if !ok {
		return
	}
	if code != 0 {
		c.Violate("exit", "generating the demonstration document fails with exit code %d", code)
		return
	}
	c.Event("documents generated")
	b, err := os.ReadFile(filepath.Join(dir, name))
	if err != nil {
		c.Violate("not-written", "no demonstration document: %v", err)
		return
	}
	s := c.checkPackage(b, SoundOpt{})
	if s == nil {
		return
	}
	var raw, items []*Node
	for _, it := range s.body().Kids {
		if it.Tag != "" {
			raw = append(raw, it)
			items = append(items, it.resolved(s.refs()))
		}
	}
	pics, links, tables := 0, 0, 0
	bodyOf(items).walk(func(n *Node) {
		switch n.Tag {
		case "pic:pic":
			if f := files[strings.TrimPrefix(n.embed(), "image:")]; f != "" {
				pics++
			} else {
				c.Violate("demo-picture", "a picture of the demonstration document shows none of its files: %s", n.embed())
			}
		case "w:hyperlink":
			links++
			if u := n.get("r:id"); u != "url:http://google.com" {
				c.Violate("demo-link", "the link of the demonstration document goes to %s", u)
			}
		case "w:tbl":
			tables++
		}
	})
	if pics == 0 || links == 0 || tables == 0 {
		c.Violate("demo", "the demonstration document has %d pictures, %d links, %d tables", pics, links, tables)
	}
	if i := strings.Index(out, "Plain text:\n"); i < 0 || !matchPattern(printed(raw, s.refs()), xmlClean(out[i:])) {
		c.Violate("demo-text", "the demonstration document is printed as %q", short(out))
	}
	same := func(f string, want []*Node) {
		b, err := os.ReadFile(filepath.Join(dir, f))
		if err != nil {
			c.Violate("not-written", "%q does not write %q: %v", args, f, err)
			return
		}
		if s := c.checkPackage(b, SoundOpt{}); s != nil {
			c.Event("outputs compared")
			c.compareBodies("output", f, bodyOf(want), Refs{}, s)
		}
	}
	if unm {
		same("unmarshal_"+name, items)
	}
	if dup > 1 {
		all := []*Node{sectNode("11906", "16838")}
		for i := 0; i < dup; i++ {
			all = append(all, copiedItems(items)...)
		}
		same("dup_"+name, all)
	}
}
