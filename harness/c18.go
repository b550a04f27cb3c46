package main

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unsafe"

	docx "github.com/fumiama/go-docx"
)

func init() {
	register(&Prop{ID: "C18", Quick: 5000, Deep: 200000, Run: runC18, CaseCPU: 60,
		Rule: "number texts of every shape (exact integers around every limit, signs, leading zeros, fractions, exponents, switches, units, garbage) judged by big-number arithmetic, directly and as attributes of parsed documents; strings and byte slices of every size converted back and forth under checkptr and the race detector, with the heap collected in between; non-trivial: texts that are not plain small integers",
		Need: map[string]int{"numbers judged": 200000, "exact integers": 50000, "rejected": 20000, "conversions": 50000, "attributes judged": 2000}})
}

// intOracle says what a number text means: an exact value, an error, or
// (tolerated) no opinion.
func intOracle(s string, bits int) (val *big.Int, isErr, free bool) {
	lo := new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), uint(bits-1)))
	hi := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(bits-1)), big.NewInt(1))
	fits := func(v *big.Int) bool { return v.Cmp(lo) >= 0 && v.Cmp(hi) <= 0 }
	dec := func(t string) (*big.Int, bool) { // [+-]?[0-9]+
		u := strings.TrimPrefix(t, "-")
		if u == t {
			u = strings.TrimPrefix(t, "+")
		}
		if u == "" || strings.Trim(u, "0123456789") != "" {
			return nil, false
		}
		v, ok := new(big.Int).SetString(u, 10)
		if ok && strings.HasPrefix(t, "-") {
			v.Neg(v)
		}
		return v, ok
	}
	if v, ok := dec(s); ok {
		if fits(v) {
			return v, false, false
		}
		return nil, true, false
	}
	switch s {
	case "true", "on":
		return big.NewInt(1), false, false
	case "false", "off":
		return big.NewInt(0), false, false
	}
	// a decimal fraction or an exponent: truncated toward zero
	if f, err := strconv.ParseFloat(s, 64); err == nil || (err.(*strconv.NumError).Err == strconv.ErrRange) {
		if err != nil { // beyond every float
			return nil, true, false
		}
		if f != f || math.IsInf(f, 0) {
			return nil, true, false
		}
		v, _ := big.NewFloat(f).Int(nil)
		if !fits(v) {
			return nil, true, false
		}
		if f >= math.MaxInt64 || f <= math.MinInt64 {
			return nil, false, true
		}
		return v, false, false
	}
	// a number with a unit: the leading integer
	t := strings.TrimLeft(s, " \t")
	i := 0
	if i < len(t) && (t[i] == '-' || t[i] == '+') {
		i++
	}
	j := i
	for j < len(t) && t[j] >= '0' && t[j] <= '9' {
		j++
	}
	if j == i {
		if strings.ContainsAny(s, "0123456789") {
			return nil, false, true // digits somewhere later: not claimed
		}
		return nil, true, false
	}
	if t != s || (j < len(t) && (t[j] == '_' || t[j] == '.' || t[j] == 'e' || t[j] == 'E' || t[j] == 'x' || t[j] == 'b' || t[j] == 'o' || t[j] == 'X')) {
		return nil, false, true
	}
	v, _ := dec(t[:j])
	if !fits(v) {
		return nil, true, false
	}
	return v, false, false
}

func (c *Ctx) numberText() string {
	edge := func() *big.Int {
		v := new(big.Int).Lsh(big.NewInt(1), uint([]int{7, 8, 15, 16, 31, 32, 53, 62, 63, 64, 65, 100}[c.Intn(12)]))
		v.Add(v, big.NewInt(int64(c.Intn(7)-3)))
		if c.Intn(2) == 0 {
			v.Neg(v)
		}
		return v
	}
	switch c.Intn(16) {
	case 0, 1:
		return edge().String()
	case 2:
		return strconv.FormatInt(int64(c.Uint64()), 10)
	case 3:
		return strconv.FormatUint(c.Uint64(), 10)
	case 4:
		return strconv.Itoa(c.Intn(200000) - 100000)
	case 5:
		return []string{"+", "-", "+0", "-0", "00", "-00", "+00"}[c.Intn(7)] + strconv.Itoa(c.Intn(1000))
	case 6:
		return strconv.FormatFloat((c.Float64()-0.5)*math.Pow(10, float64(c.Intn(25))), "feg"[c.Intn(3)], c.Intn(8), 64)
	case 7:
		return edge().String() + []string{".0", ".5", ".9999999", "e0", "E1", ".", "e-1"}[c.Intn(7)]
	case 8:
		return []string{"true", "false", "on", "off", "TRUE", "On", "yes", "no", "t", "f", "NaN", "Inf", "-Inf", "infinity", "nan", "1e400", "-1e400", "1e-400", "0x", "", " ", "-", "+", ".", "e", "--1", "+-1"}[c.Intn(27)]
	case 9:
		return strconv.Itoa(c.Intn(20000)-10000) + []string{"pt", "mm", "in", "%", "px", " ", "cm", " pt", "dxa", "pct"}[c.Intn(10)]
	case 10:
		return edge().String() + []string{"pt", "%", "q"}[c.Intn(3)]
	case 11:
		g := &Gen{Rand: c.Rand}
		return g.str()
	case 12:
		return []string{"auto", "abc", "none", "x12", "pt", "½", "１２", "٣", "1,5", "1 2"}[c.Intn(10)]
	case 13:
		return strconv.Itoa(c.Intn(100)) + "." + strconv.Itoa(c.Intn(100)) + []string{"", "", "e2", "E3", "e+1"}[c.Intn(5)]
	case 14:
		return strings.Repeat("0", c.Intn(40)) + strconv.Itoa(c.Intn(1000))
	}
	return strings.Repeat("9", 1+c.Intn(400))
}

func (c *Ctx) judgeNumber(s string) {
	c.Event("numbers judged")
	check := func(name string, bits int, f func() (int64, error)) {
		var got int64
		var err error
		if !c.guard("panic:number", fmt.Sprintf("%s(%q)", name, short(s)), func() { got, err = f() }) {
			return
		}
		want, isErr, free := intOracle(s, bits)
		switch {
		case free:
			c.Event("not claimed")
		case isErr:
			c.Event("rejected")
			if err == nil {
				c.Violate("number-accepted", "%s(%q) = %d, want an error", name, short(s), got)
			}
		case err != nil:
			c.Violate("number-refused", "%s(%q) gives %v, want %s", name, short(s), err, want)
		case want.Cmp(big.NewInt(got)) != 0:
			c.Violate("number-value", "%s(%q) = %d, want %s", name, short(s), got, want)
		default:
			c.Event("exact integers")
		}
	}
	check("GetInt64", 64, func() (int64, error) { return docx.GetInt64(s) })
	check("GetInt", strconv.IntSize, func() (int64, error) { v, err := docx.GetInt(s); return int64(v), err })
}

// numberAttrs are attributes that hold numbers: path to the value after Parse.
func (c *Ctx) judgeAttr(s string) {
	if strings.ContainsAny(s, "\x00") || xmlClean(s) != s || s == "" {
		return
	}
	want, isErr, free := intOracle(s, 64)
	if free {
		return
	}
	k := c.Intn(6)
	var body *Node
	switch k {
	case 0:
		body = el("w:p", el("w:pPr", el("w:ind").set("w:left", s)))
	case 1:
		body = el("w:p", el("w:pPr", el("w:spacing").set("w:line", s)))
	case 2:
		body = el("w:p", el("w:pPr", el("w:tabs", el("w:tab").set("w:val", "left").set("w:pos", s))))
	case 3:
		body = el("w:tbl", el("w:tblPr", el("w:tblW").set("w:w", s).set("w:type", "dxa")))
	case 4:
		body = el("w:p", el("w:r", el("w:drawing", el("wp:inline", el("wp:extent").set("cx", s).set("cy", "1")).set("distT", "0").set("distB", "0").set("distL", "0").set("distR", "0"))))
	case 5:
		body = el("w:tbl", el("w:tr", el("w:trPr", el("w:trHeight").set("w:val", s))))
	}
	d, err := open(pkgWith(el("w:document", el("w:body", body))))
	c.Event("attributes judged")
	if isErr {
		if err == nil {
			c.Violate("attribute-accepted", "<%s> with the number %q is opened without an error", body.str(), short(s))
		}
		return
	}
	if err != nil {
		c.Violate("attribute-refused", "<%s>: %v", body.str(), err)
		return
	}
	var got int64
	ok := c.guard("panic:attribute", "reading the value", func() {
		it := d.Document.Body.Items[0]
		switch k {
		case 0:
			got = int64(it.(*docx.Paragraph).Properties.Ind.Left)
		case 1:
			got = int64(it.(*docx.Paragraph).Properties.Spacing.Line)
		case 2:
			got = int64(it.(*docx.Paragraph).Properties.Tabs.Tabs[0].Position)
		case 3:
			got = it.(*docx.Table).TableProperties.Width.W
		case 4:
			got = it.(*docx.Paragraph).Children[0].(*docx.Run).Children[0].(*docx.Drawing).Inline.Extent.CX
		case 5:
			got = it.(*docx.Table).TableRows[0].TableRowProperties.TableRowHeight.Val
		}
	})
	if ok && want.Cmp(big.NewInt(got)) != 0 {
		c.Violate("attribute-value", "<%s> is read as %d, want %s", body.str(), got, want)
	}
}

// numberKeys are the attributes of an element that hold whole numbers; those
// that are written only when not zero are marked.
func numberKeys(tag string) map[string]bool {
	spec := vocabAttrs[tag]
	if strings.HasPrefix(spec, "=") {
		spec = vocabAttrs[spec[1:]]
	}
	m := map[string]bool{}
	for _, a := range strings.Fields(spec) {
		i := strings.LastIndexByte(a, ':')
		if k := a[i+1]; k == 'i' || k == 'j' {
			m[a[:i]] = strings.HasSuffix(a, "?")
		}
	}
	return m
}

var sectNumbers = map[string]bool{"w:pgSz": true, "w:pgMar": true, "w:cols": true, "w:docGrid": true}

// judgeAnyAttr puts a number text into some numeric attribute of a document.
func (c *Ctx) judgeAnyAttr(s string) {
	if xmlClean(s) != s || s == "" {
		return
	}
	want, isErr, free := intOracle(s, 64)
	if free {
		return
	}
	g := &Gen{Rand: c.Rand, Embeds: []string{"rId1"}, Links: []string{"rId2"}, NoDangle: true}
	doc := g.document(1 + c.Intn(2))
	type place struct {
		n   *Node
		i   int
		opt bool
	}
	byKind := map[string][]place{}
	doc.walk(func(n *Node) {
		ks := numberKeys(n.Tag)
		for i, a := range n.Attrs {
			if opt, ok := ks[a.Key]; ok {
				k := n.Tag + "@" + a.Key
				byKind[k] = append(byKind[k], place{n, i, opt})
			}
		}
	})
	if len(byKind) == 0 {
		return
	}
	kinds := make([]string, 0, len(byKind))
	for k := range byKind {
		kinds = append(kinds, k)
	}
	sort.Strings(kinds)
	k := kinds[c.Intn(len(kinds))]
	p := byKind[k][c.Intn(len(byKind[k]))]
	p.n.Attrs[p.i].Val = s
	d, err := open(pkgWith(doc))
	c.Event("attributes judged")
	c.Event("attribute " + k)
	if isErr {
		if err == nil {
			c.ViolateD("any-attribute-accepted:"+k, doc.str(), "%s with the number %q is opened without an error", k, short(s))
		}
		return
	}
	if err != nil && sectNumbers[p.n.Tag] && strings.Trim(s, "+-0123456789") != "" {
		return // these want plain integers, which is reported
	}
	if err != nil {
		c.ViolateD("any-attribute-refused:"+k, doc.str(), "%s with the number %q: %v", k, short(s), err)
		return
	}
	if p.opt && want.Sign() == 0 {
		return
	}
	out := c.mustSave(d, "document")
	if out == nil {
		return
	}
	t, err := docOf(out)
	if err != nil {
		c.ViolateD("malformed", doc.str(), "saved document: %v", err)
		return
	}
	p.n.Attrs[p.i].Val = want.String()
	if df := diffTrees(doc, t); df != "" {
		c.ViolateD("any-attribute-value:"+k, doc.str(), "%s with the number %q (%s): %s", k, short(s), want, df)
	}
}

func (c *Ctx) conversions() {
	size := []int{0, 1, 2, 7, 8, 31, 32, 33, 64, 1000, 4096, 65537}[c.Intn(12)]
	if c.Intn(2) == 0 {
		size = c.Intn(300)
	}
	b := make([]byte, size, size+c.Intn(3)*c.Intn(50))
	c.Read(b)
	if size == 0 && c.Intn(2) == 0 {
		b = nil
	}
	want := string(b)
	off := 0
	if size > 2 {
		off = c.Intn(size)
	}
	s := docx.BytesToString(b)
	sub := docx.BytesToString(b[off:])
	s2 := strings.Clone(want)
	x := docx.StringToBytes(s2)
	y := docx.StringToBytes(s2[off:])
	if c.Intn(40) == 0 {
		runtime.GC()
		junk := make([][]byte, 50)
		for i := range junk {
			junk[i] = bytes.Repeat([]byte{0xee}, size+1)
		}
		runtime.KeepAlive(junk)
	}
	c.EventN("conversions", 4)
	switch {
	case s != want || sub != want[off:]:
		c.Violate("bytes-to-string", "BytesToString of %d bytes differs", size)
	case string(x) != want || string(y) != want[off:]:
		c.Violate("string-to-bytes", "StringToBytes of %d bytes differs", size)
	case len(x) != size || cap(x) != size || len(y) != size-off || cap(y) != size-off:
		c.Violate("string-to-bytes:cap", "StringToBytes of %d bytes has length %d and capacity %d", size, len(x), cap(x))
	case !bytes.Equal(append(x[:len(x):len(x)], 'z'), append([]byte(want), 'z')) || s2 != want:
		c.Violate("string-to-bytes:append", "appending to StringToBytes of %d bytes goes wrong", size)
	}
	if size > 0 { // no copy: the data is the same
		if unsafe.StringData(s) != &b[0] || &x[0] != unsafe.StringData(s2) {
			c.Violate("copied", "a conversion of %d bytes copies", size)
		}
	}
	if back := docx.StringToBytes(docx.BytesToString(b)); !bytes.Equal(back, b) {
		c.Violate("round-trip", "%d bytes do not survive both conversions", size)
	}
}

func runC18(c *Ctx) {
	var texts []string
	for i := 0; i < 100; i++ {
		s := c.numberText()
		texts = append(texts, s)
		if _, err := strconv.ParseInt(s, 10, 32); err != nil {
			c.Distinct(s)
		}
		c.judgeNumber(s)
	}
	for i := 0; i < 3; i++ {
		c.judgeAttr(texts[c.Intn(len(texts))])
		c.judgeAnyAttr(texts[c.Intn(len(texts))])
	}
	for i := 0; i < 20; i++ {
		c.conversions()
	}
	if c.Intn(50) == 0 { // the helpers have no state
		var wg sync.WaitGroup
		seq := make([][2]string, len(texts))
		for i, s := range texts {
			seq[i] = numberPair(s)
		}
		for k := 0; k < 4; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i, s := range texts {
					if g := numberPair(s); !reflect.DeepEqual(g, seq[i]) {
						c.Violate("number-race", "%q is %v alone and %v concurrently", short(s), seq[i], g)
					}
				}
			}()
		}
		wg.Wait()
		c.Event("concurrent rounds")
	}
	c.Sample(strings.Join(texts[:12], " | "))
}

func numberPair(s string) [2]string {
	a, e := docx.GetInt64(s)
	b, f := docx.GetInt(s)
	return [2]string{fmt.Sprint(a, e), fmt.Sprint(b, f)}
}
