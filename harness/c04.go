package main

import (
	"fmt"
	"reflect"
	"strings"

	docx "github.com/fumiama/go-docx"
)

func init() {
	register(&Prop{ID: "C04", Quick: 30000, Deep: 400000, Run: runC04,
		Rule: "documents whose exported structures are filled at random by reflection (all structs of the body, every field, optional parts present or not, any allowed children in any order, hostile strings, boundary numbers), put into new documents or over parts of opened ones, saved and opened again; every exported field must read back as it was set; non-trivial: at least 20 fields set",
		Need: map[string]int{"fields set": 200000, "structs set": 50000, "documents compared": 4000}})
}

// Filler sets exported structures at random.
type Filler struct {
	c      *Ctx
	left   int
	paths  map[string]bool
	sparse bool // parts may be missing anywhere
	// Embeds and Links are the relationship ids to refer to
	Embeds, Links []string
}

var (
	tRun    = reflect.TypeOf(docx.Run{})
	tDraw   = reflect.TypeOf(docx.Drawing{})
	tGData  = reflect.TypeOf(docx.AGraphicData{})
	fillURI = map[string]string{"XMLA": docx.XMLNS_DRAWINGML_MAIN, "XMLPIC": docx.XMLNS_DRAWINGML_PICTURE}
)

// fillKinds are the types that a field of type []interface{} may hold.
var fillKinds = map[string][]interface{}{
	"Paragraph.Children":         {docx.Run{}, docx.Run{}, docx.Run{}, docx.Hyperlink{}},
	"Run.Children":               {docx.Text{}, docx.Text{}, docx.Text{}, docx.Tab{}, docx.BarterRabbet{}, docx.Drawing{}},
	"WordprocessingCanvas.Items": {docx.WordprocessingShape{}, docx.Picture{}, docx.WordprocessingGroup{}},
	"WordprocessingGroup.Elems":  {docx.WordprocessingShape{}, docx.Picture{}, docx.WPGGroupShape{}, docx.WordprocessingCanvas{}},
	"WPGGroupShape.Elems":        {docx.WordprocessingShape{}, docx.Picture{}, docx.WordprocessingCanvas{}},
}

func (f *Filler) str(what string) string {
	c := f.c
	switch c.Intn(8) {
	case 0:
		return []string{"0", "1", "true", "auto", "center", "-5", "FF00AA", "none"}[c.Intn(8)]
	case 1:
		return []string{"\n\t x \r", " ", "  z  ", "-->", "<", "&amp;", "\"'>", "é漢😀", "a b", "]]>", "%s", "\u00a0"}[c.Intn(12)]
	}
	return fmt.Sprintf("%s%d", what, c.Intn(1000))
}

func (f *Filler) num(bits int) int64 {
	c := f.c
	switch c.Intn(8) {
	case 0:
		return []int64{1, -1, 2, 100, 1<<31 - 1, -1 << 31, 1<<53 + 1, 1<<63 - 1, -1 << 63, 65536}[c.Intn(10)]
	case 1:
		return 0
	case 2:
		return c.Int63()
	case 3:
		return -c.Int63()
	}
	return int64(c.Intn(100000))
}

// value makes a value of the type.
func (f *Filler) value(t reflect.Type, path string, depth int) reflect.Value {
	v := reflect.New(t).Elem()
	f.fill(v, path, depth)
	return v
}

func (f *Filler) fill(v reflect.Value, path string, depth int) {
	c, t := f.c, v.Type()
	f.c.Event("structs set")
	name := t.Name()
	skip := map[string]bool{}
	one := func(fields ...string) { // exactly one of them
		k := c.Intn(len(fields))
		for i, n := range fields {
			if i != k {
				skip[n] = true
			}
		}
	}
	switch t {
	case tDraw:
		if f.sparse && c.Intn(10) == 0 {
			break
		}
		one("Inline", "Anchor")
	case tGData:
		one("Pic", "Pic", "Shape", "Canvas", "Group")
		if f.left < 0 || depth > 10 {
			skip = map[string]bool{"Shape": true, "Canvas": true, "Group": true}
		}
	case tRun:
		if c.Intn(8) == 0 {
			one("Children", "InstrText")
		} else {
			skip["InstrText"] = true
		}
	}
	if h, ok := v.Addr().Interface().(*docx.Hyperlink); ok {
		// a link to a bookmark has the bookmark for an id
		defer func() {
			if h.ID == "" {
				h.ID = h.Anchor
			}
		}()
	}
	for i := 0; i < t.NumField(); i++ {
		sf := t.Field(i)
		fv := v.Field(i)
		if sf.PkgPath != "" || sf.Name == "XMLName" || skip[sf.Name] {
			continue
		}
		if u, ok := fillURI[sf.Name]; ok {
			fv.SetString(u)
			continue
		}
		key := name + "." + sf.Name
		set := func() {
			f.left--
			f.c.Event("fields set")
			f.paths[key] = true
		}
		if key == "Tab.Val" || key == "Tab.Position" {
			if strings.HasSuffix(path, "Run/Tab") { // only tab stops have attributes
				continue
			}
		}
		always := !strings.Contains(sf.Tag.Get("xml"), "omitempty")
		switch fv.Kind() {
		case reflect.String:
			switch key {
			case "ABlip.Embed":
				if len(f.Embeds) > 0 {
					fv.SetString(f.Embeds[c.Intn(len(f.Embeds))])
				} else {
					fv.SetString("rId1")
				}
			case "Hyperlink.ID":
				if len(f.Links) > 0 && c.Intn(3) > 0 {
					fv.SetString(f.Links[c.Intn(len(f.Links))])
				}
			case "Run.Space", "Text.XMLSpace":
				if c.Intn(2) == 0 {
					fv.SetString("preserve")
				}
			default:
				if c.Intn(3) > 0 || (always && c.Intn(8) > 0) {
					fv.SetString(f.str(sf.Name))
					set()
				}
			}
		case reflect.Int, reflect.Int64:
			if c.Intn(3) > 0 {
				fv.SetInt(f.num(64))
				set()
			}
		case reflect.Struct:
			if fv.NumField() > 0 {
				f.fill(fv, path+"/"+sf.Name, depth+1)
			}
		case reflect.Ptr:
			p := 0.5
			if f.left < 0 {
				p = 0.05
			}
			if depth > 14 {
				p = 0
			}
			if (t == tDraw || t == tGData || sf.Name == "Graphic" || sf.Name == "GraphicData") && depth < 40 && !f.sparse {
				p = 0.95
			}
			if c.Float64() < p {
				n := reflect.New(fv.Type().Elem())
				set()
				if n.Elem().NumField() > 0 {
					f.fill(n.Elem(), path+"/"+sf.Name, depth+1)
				}
				fv.Set(n)
			}
		case reflect.Slice:
			n := c.Intn(4)
			if f.left < 0 || depth > 14 {
				n = c.Intn(2)
			}
			if depth > 30 {
				n = 0
			}
			for ; n > 0; n-- {
				et := fv.Type().Elem()
				if et.Kind() == reflect.Interface {
					ks := fillKinds[key]
					if len(ks) == 0 {
						panic("no kinds for " + key)
					}
					kt := reflect.TypeOf(ks[c.Intn(len(ks))])
					if (kt == tDraw) && (depth > 12 || f.left < 0) {
						kt = reflect.TypeOf(docx.Text{})
					}
					e := reflect.New(kt)
					f.fill(e.Elem(), path+"/"+kt.Name(), depth+1)
					fv.Set(reflect.Append(fv, e))
				} else if et.Kind() == reflect.Ptr {
					e := reflect.New(et.Elem())
					f.fill(e.Elem(), path+"/"+et.Elem().Name(), depth+1)
					fv.Set(reflect.Append(fv, e))
				} else {
					e := f.value(et, path+"/"+et.Name(), depth+1)
					fv.Set(reflect.Append(fv, e))
				}
				set()
			}
		default:
			panic("field of kind " + fv.Kind().String() + " " + key)
		}
	}
}

// skipXML leaves out what names the elements, not what is in them.
func skipXML(t reflect.Type, f reflect.StructField) bool {
	_, ns := fillURI[f.Name]
	return f.Name == "XMLName" || ns || f.Name == "XMLSpace"
}

func runC04(c *Ctx) {
	f := &Filler{c: c, left: 30 + c.Intn(150), paths: map[string]bool{}, Embeds: []string{"rId1"}}
	d := docx.New().WithDefaultTheme()
	if c.Chance(0.3) {
		w := newWorld(c.Rand, WorldOpt{Items: c.Intn(3), Images: 1 + c.Intn(3), Links: 1 + c.Intn(2)})
		if d = c.mustOpen(w.bytes(c.Rand), "generated package"); d == nil {
			return
		}
		f.Embeds = nil
		for _, r := range w.Rels {
			if strings.HasSuffix(r.Type, "/image") {
				f.Embeds = append(f.Embeds, r.ID)
			}
			if strings.HasSuffix(r.Type, "/hyperlink") {
				f.Links = append(f.Links, r.ID)
			}
		}
	}
	body := &d.Document.Body
	for n := 1 + c.Intn(4); n > 0; n-- {
		var it interface{}
		switch c.Intn(6) {
		case 0, 1:
			x := &docx.Table{}
			f.fill(reflect.ValueOf(x).Elem(), "Table", 0)
			it = x
		case 2:
			x := &docx.SectPr{}
			f.fill(reflect.ValueOf(x).Elem(), "SectPr", 0)
			it = x
		default:
			x := &docx.Paragraph{}
			f.fill(reflect.ValueOf(x).Elem(), "Paragraph", 0)
			it = x
		}
		body.Items = append(body.Items, it)
	}
	want := dumpSkip(body.Items, skipXML)
	out := c.mustSave(d, "filled document")
	if out == nil {
		return
	}
	if s := dumpSkip(body.Items, skipXML); s != want {
		c.Violate("save-changes", "saving changes the document: %s", firstDiff(want, s))
		return
	}
	d2 := c.mustOpen(out, "saved document")
	if d2 == nil {
		return
	}
	got := dumpSkip(d2.Document.Body.Items, skipXML)
	c.Event("documents compared")
	if len(f.paths) >= 20 {
		c.Distinct(want)
	}
	c.Sample(short(want))
	if df := firstDiff(want, got); df != "" {
		x, _ := docOf(out)
		c.ViolateD("field:"+fieldSig(want, got), want+"\n----\n"+got+"\n----\n"+x.str(), "set and read again: %s", df)
	}
}

// fieldSig is the field in which two dumps first differ.
func fieldSig(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range la {
		if i >= len(lb) || la[i] != lb[i] {
			return strings.TrimSpace(strings.SplitN(la[i], ":", 2)[0])
		}
	}
	return "more"
}
