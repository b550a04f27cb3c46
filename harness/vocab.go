package main

import (
	"math"
	"math/rand"
	"strconv"
	"strings"
)

// The vocabulary go-docx supports, written down independently of its struct
// tags. Attribute kinds: s string, x non-empty string, i int, j 64-bit int,
// b 0/1, u small unsigned. A trailing ! marks an attribute that is always written, ? one
// that is written when it is not empty / not zero.
// Children of property containers: a trailing ! marks a child that is always
// written, otherwise it is optional.
var vocabAttrs = map[string]string{
	"w:tab": "w:val:x? w:pos:i?", "w:br": "w:type:x?",
	"w:spacing":        "w:val:i? w:beforeLines:i? w:before:i? w:line:i? w:lineRule:x?",
	"w:numId":          "w:val:s!",
	"w:ilvl":           "w:val:s!",
	"w:ind":            "w:leftChars:i? w:left:i? w:firstLineChars:i? w:firstLine:i? w:hangingChars:i? w:hanging:i?",
	"w:jc":             "w:val:s!",
	"w:shd":            "w:val:x? w:color:x? w:fill:x? w:themeFill:x? w:themeFillTint:x?",
	"w:kern":           "w:val:j!",
	"w:pStyle":         "w:val:s!",
	"w:rStyle":         "w:val:s!",
	"w:textAlignment":  "w:val:s!",
	"w:adjustRightInd": "w:val:i!", "w:snapToGrid": "w:val:i!", "w:kinsoku": "w:val:i!", "w:overflowPunct": "w:val:i!",
	"w:rFonts": "w:ascii:x? w:eastAsia:x? w:hAnsi:x? w:hint:x?",
	"w:b":      "w:val:x?", "w:i": "w:val:x?", "w:iCs": "",
	"w:highlight": "w:val:x?", "w:color": "w:val:s!", "w:sz": "w:val:s!", "w:szCs": "w:val:s!",
	"w:u": "w:val:x?", "w:vertAlign": "w:val:s!", "w:strike": "w:val:x?",
	"w:tblpPr":   "w:leftFromText:i? w:rightFromText:i? w:vertAnchor:x? w:horzAnchor:x? w:tblpXSpec:x? w:tblpYSpec:x? w:tblpX:i? w:tblpY:i?",
	"w:tblStyle": "w:val:s!",
	"w:tblW":     "w:w:j! w:type:x?",
	"w:top":      "w:val:x? w:sz:i? w:space:i? w:color:x?", "w:left": "=w:top", "w:bottom": "=w:top", "w:right": "=w:top", "w:insideH": "=w:top", "w:insideV": "=w:top",
	"w:tblLook":  "w:val:x? w:firstRow:b! w:lastRow:b! w:firstColumn:b! w:lastColumn:b! w:noHBand:b! w:noVBand:b!",
	"w:gridCol":  "w:w:j!",
	"w:trHeight": "w:hRule:x? w:val:j!",
	"w:tcW":      "w:w:j! w:type:x?",
	"w:vMerge":   "w:val:x?", "w:gridSpan": "w:val:i!", "w:vAlign": "w:val:s!",
	"w:pgSz":    "w:w:i! w:h:i!",
	"w:pgMar":   "w:top:i! w:left:i! w:bottom:i! w:right:i! w:header:i! w:footer:i! w:gutter:i!",
	"w:cols":    "w:space:i!",
	"w:docGrid": "w:type:x? w:linePitch:i!",

	"wp:inline":           "distT:j! distB:j! distL:j! distR:j!",
	"wp:anchor":           "distT:j! distB:j! distL:j! distR:j! simplePos:b! relativeHeight:i! behindDoc:b! locked:b! layoutInCell:b! allowOverlap:b!",
	"wp:extent":           "cx:j! cy:j!",
	"wp:effectExtent":     "l:j! t:j! r:j! b:j!",
	"wp:docPr":            "id:i! name:x?",
	"a:graphicFrameLocks": "noChangeAspect:b?",
	"wp:simplePos":        "x:j! y:j!",
	"wp:positionH":        "relativeFrom:s!", "wp:positionV": "relativeFrom:s!",
	"wp:wrapSquare": "wrapText:s!",
	"pic:cNvPr":     "id:i! name:s!", "wps:cNvPr": "id:i! name:s!", "wpg:cNvPr": "id:i! name:s!",
	"a:picLocks":    "noChangeAspect:b!",
	"a:blip":        "r:embed:R! cstate:x?",
	"a:alphaModFix": "amt:i!",
	"a:xfrm":        "rot:j? flipH:b? flipV:b?",
	"a:off":         "x:j! y:j!", "a:chOff": "x:j! y:j!", "a:ext": "cx:j! cy:j!", "a:chExt": "cx:j! cy:j!",
	"a:prstGeom":  "prst:s!",
	"wps:cNvSpPr": "txBox:b?",
	"a:spLocks":   "noChangeArrowheads:b?",
	"a:blipFill":  "dpi:i! rotWithShape:b!",
	"a:tile":      "tx:j! ty:j! sx:j! sy:j! flip:x? algn:x?",
	"a:ln":        "w:j? cap:x? cmpd:x? algn:x?",
	"a:srgbClr":   "val:s!", "a:prstDash": "val:x?", "a:miter": "lim:x?",
	"a:headEnd": "type:x? w:x? len:x?", "a:tailEnd": "=a:headEnd",
	"wps:bodyPr": "rot:i! vert:x? wrap:x? lIns:j! tIns:j! rIns:j! bIns:j! anchor:x? anchorCtr:b! upright:b!",
	"wps:spPr":   "bwMode:x?", "wpg:grpSpPr": "bwMode:x?",
}

var vocabKids = map[string]string{
	"w:pPr":                "w:tabs w:spacing w:numPr w:ind w:jc w:shd w:kern w:pStyle w:textAlignment w:adjustRightInd w:snapToGrid w:kinsoku w:overflowPunct w:rPr",
	"w:numPr":              "w:numId w:ilvl",
	"w:rPr":                "w:rFonts w:b w:iCs w:i w:highlight w:color w:sz w:szCs w:spacing w:rStyle w:pStyle w:shd w:kern w:u w:vertAlign w:strike",
	"w:tblPr":              "w:tblpPr w:tblStyle w:tblW w:jc w:tblBorders w:tblLook",
	"w:tblBorders":         "w:top w:left w:bottom w:right w:insideH w:insideV",
	"w:tcBorders":          "w:top w:left w:bottom w:right w:insideH w:insideV",
	"w:trPr":               "w:trHeight w:jc",
	"w:tcPr":               "w:tcW w:vMerge w:gridSpan w:tcBorders w:shd w:vAlign",
	"w:sectPr":             "w:pgSz w:pgMar w:cols w:docGrid",
	"pic:cNvPicPr":         "a:picLocks",
	"pic:nvPicPr":          "pic:cNvPr! pic:cNvPicPr!",
	"a:stretch":            "a:fillRect",
	"a:blip":               "a:alphaModFix",
	"pic:blipFill":         "a:blip! a:stretch!",
	"a:xfrm":               "a:off! a:ext! a:chOff a:chExt",
	"a:prstGeom":           "a:avLst",
	"pic:spPr":             "a:xfrm! a:prstGeom",
	"wps:cNvCnPr":          "a:cxnSpLocks",
	"wps:cNvSpPr":          "a:spLocks",
	"wps:spPr":             "a:xfrm! a:prstGeom! a:solidFill a:blipFill a:noFill a:ln",
	"wpg:grpSpPr":          "a:xfrm! a:prstGeom! a:solidFill a:blipFill a:noFill a:ln",
	"a:solidFill":          "a:srgbClr",
	"a:blipFill":           "a:blip a:srcRect a:tile",
	"a:ln":                 "a:noFill a:solidFill a:prstDash a:miter a:round a:headEnd a:tailEnd",
	"wps:bodyPr":           "a:noAutofit",
	"wpg:cNvGrpSpPr":       "a:grpSpLocks",
	"wpc:bg":               "a:noFill",
	"wpc:whole":            "a:ln",
	"wp:cNvGraphicFramePr": "a:graphicFrameLocks!",
}

// usualVals are the values that the standard gives to an attribute: the ones a
// document really has, defaults included.
var usualVals = map[string]string{
	"w:tab@w:val":               "clear left center right decimal bar num start end",
	"w:br@w:type":               "page column textWrapping",
	"w:spacing@w:lineRule":      "auto exact atLeast",
	"w:jc@w:val":                "left center right both distribute start end highKashida thaiDistribute",
	"w:shd@w:val":               "clear nil solid pct10 horzStripe",
	"w:shd@w:color":             "auto 000000 FFFFFF",
	"w:shd@w:fill":              "auto 000000 FFFFFF",
	"w:shd@w:themeFill":         "accent1 background1 text1 none",
	"w:shd@w:themeFillTint":     "00 FF 33",
	"w:textAlignment@w:val":     "auto baseline top center bottom",
	"w:rFonts@w:hint":           "default eastAsia cs",
	"w:b@w:val":                 "true false 1 0 on off",
	"w:i@w:val":                 "true false 1 0 on off",
	"w:strike@w:val":            "true false 1 0 on off",
	"w:highlight@w:val":         "none yellow black",
	"w:color@w:val":             "auto 000000 FF0000",
	"w:u@w:val":                 "none single double words wave dash",
	"w:vertAlign@w:val":         "baseline superscript subscript",
	"w:numId@w:val":             "0 1",
	"w:ilvl@w:val":              "0 1 8",
	"w:sz@w:val":                "0 20 21 24",
	"w:szCs@w:val":              "0 20 21 24",
	"w:tblpPr@w:vertAnchor":     "text margin page",
	"w:tblpPr@w:horzAnchor":     "text margin page",
	"w:tblpPr@w:tblpXSpec":      "left center right inside outside",
	"w:tblpPr@w:tblpYSpec":      "inline top center bottom inside outside",
	"w:tblW@w:type":             "auto dxa pct nil",
	"w:tcW@w:type":              "auto dxa pct nil",
	"w:top@w:val":               "nil none single dotted double thick",
	"w:top@w:color":             "auto 000000",
	"w:tblLook@w:val":           "0000 04A0 0480 01E0",
	"w:trHeight@w:hRule":        "auto exact atLeast",
	"w:vMerge@w:val":            "restart continue",
	"w:vAlign@w:val":            "top center both bottom",
	"w:docGrid@w:type":          "default lines linesAndChars snapToChars",
	"wp:positionH@relativeFrom": "column page margin character leftMargin",
	"wp:positionV@relativeFrom": "paragraph page margin line topMargin",
	"wp:wrapSquare@wrapText":    "bothSides left right largest",
	"a:blip@cstate":             "print none screen email hqprint",
	"a:prstGeom@prst":           "rect ellipse line straightConnector1",
	"a:tile@flip":               "none x y xy",
	"a:tile@algn":               "tl ctr br",
	"a:ln@cap":                  "flat sq rnd",
	"a:ln@cmpd":                 "sng dbl tri",
	"a:ln@algn":                 "ctr in",
	"a:srgbClr@val":             "000000 FFFFFF",
	"a:prstDash@val":            "solid dash sysDot",
	"a:miter@lim":               "800000 0",
	"a:headEnd@type":            "none triangle arrow",
	"a:headEnd@w":               "sm med lg",
	"a:headEnd@len":             "sm med lg",
	"wps:bodyPr@vert":           "horz vert vert270 eaVert",
	"wps:bodyPr@wrap":           "none square",
	"wps:bodyPr@anchor":         "t ctr b",
	"wps:spPr@bwMode":           "auto black clr",
	"wpg:grpSpPr@bwMode":        "auto black clr",
	"w:pStyle@w:val":            "Normal a a1 Heading1",
	"w:rStyle@w:val":            "a0 a3 Hyperlink",
	"w:tblStyle@w:val":          "a1 TableNormal TableGrid",
	"wp:docPr@name":             "Picture 1",
	"pic:cNvPr@name":            "Picture 1",
	"wps:cNvPr@name":            "Shape 1",
}

var niceStrings = []string{
	"center", "both", "left", "auto", "single", "000000", "FF00AA", "Heading1", "a3", "rect", "clear",
	"dxa", "宋体", "Times New Roman", "nil", "page", "true", "false", "0", "1", "on", "-1", "solid",
}

var oddStrings = []string{
	" ", "  lead", "trail  ", "a&b", "<x>", "\"q\"", "'s'", "]]>", "a\tb", "a\nb", "a\r\nb", "é", "😀", "\u00a0", "\u2028",
	"&amp;", "&#65;", "%s%d", "..\\..\\x", "w:p", "rId1", "0x10", "1e3", "null", "\ufeff", "a=\"b\"", "</w:t>", "\ufffd", "\U0010ffff", "\u0085",
}

// Gen makes random canonical trees.
type Gen struct {
	*rand.Rand
	Depth     int
	Embeds    []string // relationship ids of images
	Links     []string // relationship ids of hyperlinks
	NoDraw    bool
	NoLink    bool
	PicOnly   bool // only pictures as drawings
	NoNest    bool // no textboxes, canvases, groups
	NoDangle  bool // every reference resolves
	NoOddInt  bool
	docPr     int
	Tags      map[string]int
	SimpleTxt bool
	NoInstr   bool
	NoDeep    bool // shapes, canvases and groups hold no pictures, links or drawings
	NoAnchor  bool // no links to bookmarks
	Hollow    bool // drawings may lack what they show
	MultiRun  bool // hyperlinks may have several runs
	deep      int  // inside a shape, canvas or group
}

// many gives a number of things that is more than usual.
func many(r *rand.Rand) int {
	n := []int{16, 17, 32, 33, 64, 65, 66, 80, 100, 101, 128, 129, 130, 150}[r.Intn(14)]
	if r.Intn(12) == 0 {
		n = []int{200, 256, 257, 300}[r.Intn(4)]
	}
	return n
}

func (g *Gen) shallow() bool { return g.NoDeep && g.deep > 0 }

func (g *Gen) chance(p float64) bool { return g.Float64() < p }

// str makes an attribute or text value without characters XML cannot carry.
func (g *Gen) str() string {
	switch g.Intn(12) {
	case 0, 1, 2, 3, 4:
		return niceStrings[g.Intn(len(niceStrings))]
	case 5, 6:
		return oddStrings[g.Intn(len(oddStrings))]
	case 7:
		return strconv.Itoa(g.Intn(100000))
	case 8:
		return oddStrings[g.Intn(len(oddStrings))] + niceStrings[g.Intn(len(niceStrings))] + oddStrings[g.Intn(len(oddStrings))]
	case 9:
		return strings.Repeat(string(rune('a'+g.Intn(26))), 1+g.Intn(40))
	case 10:
		n := 1 + g.Intn(12)
		var sb strings.Builder
		for i := 0; i < n; i++ {
			sb.WriteRune(g.xmlRune())
		}
		return sb.String()
	default:
		return "v" + strconv.Itoa(g.Intn(10))
	}
}

func (g *Gen) xmlRune() rune {
	for {
		var r rune
		switch g.Intn(5) {
		case 0:
			r = rune(0x20 + g.Intn(0x5f))
		case 1:
			r = rune(0x80 + g.Intn(0x700))
		case 2:
			r = rune(0x4e00 + g.Intn(0x5000))
		case 3:
			r = rune(0x1f300 + g.Intn(0x300))
		default:
			r = rune(g.Intn(0x110000))
		}
		if r == 0x9 || r == 0xa || (r >= 0x20 && r <= 0xd7ff) || (r >= 0xe000 && r <= 0xfffd) || (r >= 0x10000 && r <= 0x10ffff) {
			return r
		}
	}
}

func (g *Gen) int64v() string {
	if g.NoOddInt {
		if g.Intn(4) == 0 {
			return strconv.Itoa(g.Intn(4))
		}
		return strconv.Itoa(g.Intn(20000))
	}
	switch g.Intn(17) {
	case 14, 15:
		return strconv.Itoa(g.Intn(12))
	case 16: // numbers that are frequent
		return []string{"100", "240", "360", "5000", "9525", "12700", "21600", "114300", "360000", "914400", "5400000", "100000", "65535", "65536", "255", "256", "-2"}[g.Intn(17)]
	case 0:
		return "0"
	case 1:
		return "-1"
	case 2:
		return strconv.FormatInt(math.MaxInt64, 10)
	case 3:
		return strconv.FormatInt(math.MinInt64, 10)
	case 4:
		return strconv.FormatInt(int64(math.MaxInt32)+int64(g.Intn(3))-1, 10)
	case 5:
		return strconv.FormatInt(int64(math.MinInt32)+int64(g.Intn(3))-1, 10)
	case 6:
		return strconv.FormatInt(g.Int63()-g.Int63(), 10)
	case 7:
		return strconv.FormatInt(1<<53+int64(g.Intn(5)), 10)
	case 8:
		return strconv.Itoa(-g.Intn(100000))
	default:
		return strconv.Itoa(g.Intn(2000000))
	}
}

func (g *Gen) attrVal(kind string) string {
	switch kind {
	case "s":
		if g.Intn(25) == 0 {
			return ""
		}
		return g.str()
	case "x":
		return g.str()
	case "b":
		return strconv.Itoa(g.Intn(2))
	case "i", "j":
		return g.int64v()
	case "R":
		if len(g.Embeds) > 0 && (g.NoDangle || g.Intn(10) > 0) {
			return g.Embeds[g.Intn(len(g.Embeds))]
		}
		return "rId" + strconv.Itoa(2000000900+g.Intn(20))
	}
	panic("kind " + kind)
}

func (g *Gen) attrs(n *Node) {
	spec, tag := vocabAttrs[n.Tag], n.Tag
	if strings.HasPrefix(spec, "=") {
		tag = spec[1:]
		spec = vocabAttrs[tag]
	}
	for _, a := range strings.Fields(spec) {
		i := strings.LastIndexByte(a, ':')
		key, kind, mode := a[:i], a[i+1:i+2], a[i+2:]
		if mode == "?" && g.Intn(2) == 0 {
			continue
		}
		v := g.attrVal(kind)
		if u := usualVals[tag+"@"+key]; u != "" && g.Intn(5) < 2 {
			us := strings.Fields(u)
			if strings.HasSuffix(key, "name") {
				us = []string{u}
			}
			v = us[g.Intn(len(us))]
		}
		if mode == "?" && (v == "" || ((kind == "i" || kind == "j" || kind == "b") && v == "0")) {
			continue
		}
		n.set(key, v)
	}
}

func (g *Gen) tag(n *Node) *Node {
	if g.Tags != nil {
		g.Tags[n.Tag]++
	}
	return n
}

// again gives the last child once more, sometimes: neighbours that are the same
// must both be there.
func (g *Gen) again(n *Node) {
	if len(n.Kids) == 0 || g.Intn(12) > 0 {
		return
	}
	k := n.Kids[len(n.Kids)-1]
	switch k.Tag {
	case "", "w:instrText", "w:rPr", "w:pPr", "w:tblPr", "w:tblGrid", "w:trPr", "w:tcPr":
		return
	}
	if k.count() > 300 {
		return
	}
	k = k.clone()
	k.walk(func(x *Node) {
		for i := range x.Attrs {
			if x.Tag == "wp:docPr" && x.Attrs[i].Key == "id" {
				g.docPr++
				x.Attrs[i].Val = strconv.Itoa(g.docPr)
			}
		}
	})
	n.add(k)
}

// elem makes a random element of a property vocabulary.
func (g *Gen) elem(tag string) *Node {
	n := g.tag(el(tag))
	if tag == "w:tabs" {
		for i := g.Intn(4); i > 0; i-- {
			n.add(g.elem("w:tab"))
			g.again(n)
		}
		return n
	}
	g.attrs(n)
	for _, k := range strings.Fields(vocabKids[tag]) {
		if strings.HasSuffix(k, "!") {
			n.add(g.elem(k[:len(k)-1]))
		} else if k == "a:blipFill" && g.shallow() {
			continue
		} else if g.Intn(3) == 0 {
			n.add(g.elem(k))
		}
	}
	return n
}

func (g *Gen) txt() string {
	if g.SimpleTxt {
		return "t" + strconv.Itoa(g.Intn(100000))
	}
	switch g.Intn(10) {
	case 0, 1, 2:
		return g.str()
	case 3:
		return g.str() + " " + g.str()
	case 4:
		return "word " + strconv.Itoa(g.Intn(1000)) + " "
	case 5:
		n := g.Intn(60)
		var sb strings.Builder
		for i := 0; i < n; i++ {
			sb.WriteRune(g.xmlRune())
		}
		return sb.String()
	case 6:
		if g.Intn(40) == 0 {
			return strings.Repeat(g.str()+"长", 9000)
		}
		return " "
	default:
		return "text " + strconv.Itoa(g.Intn(100000))
	}
}

func (g *Gen) t() *Node {
	n := g.tag(el("w:t"))
	s := g.txt()
	if g.Intn(3) == 0 || strings.TrimSpace(s) != s {
		n.set("xml:space", "preserve")
	}
	if s != "" {
		n.add(tx(s))
	}
	return n
}

func (g *Gen) run() *Node {
	n := g.tag(el("w:r"))
	if g.Intn(15) == 0 {
		n.set("xml:space", "preserve")
	}
	if g.Intn(2) == 0 {
		n.add(g.elem("w:rPr"))
	}
	if !g.NoInstr && g.Intn(12) == 0 {
		if s := g.txt(); s != "" {
			n.add(g.tag(el("w:instrText", tx(s))))
		}
	}
	k := g.Intn(4)
	if g.Intn(30) == 0 {
		k = g.Intn(20)
		if g.Intn(8) == 0 {
			k = many(g.Rand)
		}
	}
	lots := k > 20
	for ; k > 0; k-- {
		g.again(n)
		switch g.Intn(8) {
		case 0:
			n.add(g.tag(el("w:tab")))
		case 1:
			n.add(g.elem("w:br"))
		case 2:
			if !g.NoDraw && !g.shallow() && (!lots || k == 1) {
				n.add(g.drawing())
				continue
			}
			fallthrough
		default:
			if lots && g.Intn(8) > 0 {
				n.add(el("w:t", tx("t"+strconv.Itoa(k))))
				continue
			}
			n.add(g.t())
		}
	}
	return n
}

func (g *Gen) hyperlink() *Node {
	n := g.tag(el("w:hyperlink"))
	id := ""
	if !g.NoAnchor && g.Intn(3) == 0 {
		n.set("w:anchor", "_Toc"+strconv.Itoa(g.Intn(1000))+[]string{"", " é&", "rId1"}[g.Intn(3)])
		if g.Intn(2) == 0 {
			n.add(g.run())
			return n
		}
	}
	if len(g.Links) > 0 && (g.NoDangle || g.Intn(10) > 0) {
		id = g.Links[g.Intn(len(g.Links))]
	} else {
		id = "rId" + strconv.Itoa(2000000950+g.Intn(20))
	}
	n.set("r:id", id)
	n.add(g.run())
	for g.MultiRun && g.Intn(3) == 0 {
		n.add(g.run())
	}
	return n
}

func (g *Gen) para() *Node {
	n := g.tag(el("w:p"))
	if g.Intn(3) > 0 {
		n.add(g.elem("w:pPr"))
	}
	k := g.Intn(5)
	if g.Intn(40) == 0 {
		k = 60 + g.Intn(80)
		if g.Intn(2) == 0 {
			k = many(g.Rand)
		}
		sd := g.NoDraw
		g.NoDraw = true
		defer func() {
			if g.NoDraw = sd; !sd && !g.shallow() && g.Intn(2) == 0 { // the last
				n.add(el("w:r", g.drawing()))
			}
		}()
	}
	for ; k > 0; k-- {
		g.again(n)
		switch g.Intn(10) {
		case 0:
			if !g.NoLink && !g.shallow() && (len(g.Links) > 0 || !g.NoDangle) {
				n.add(g.hyperlink())
				continue
			}
			n.add(g.run())
		case 1:
			if g.Intn(4) == 0 {
				n.add(g.elem("w:rPr"))
				continue
			}
			n.add(g.run())
		default:
			n.add(g.run())
		}
	}
	return n
}

func (g *Gen) table() *Node {
	n := g.tag(el("w:tbl"))
	if g.Intn(6) > 0 {
		n.add(g.elem("w:tblPr"))
	}
	rows, cols := g.Intn(4), g.Intn(4)
	if g.Intn(40) == 0 {
		rows = 30 + g.Intn(60)
	} else if g.Intn(80) == 0 {
		rows, cols = 1+g.Intn(2), many(g.Rand)
	}
	if g.Intn(6) > 0 {
		gr := g.tag(el("w:tblGrid"))
		for i := 0; i < cols; i++ {
			gr.add(g.elem("w:gridCol"))
		}
		n.add(gr)
	}
	ragged := g.Intn(8) == 0
	for i := 0; i < rows; i++ {
		g.again(n)
		tr := g.tag(el("w:tr"))
		if g.Intn(3) > 0 {
			tr.add(g.elem("w:trPr"))
		}
		if ragged {
			cols = g.Intn(5)
		}
		for j := 0; j < cols; j++ {
			g.again(tr)
			tc := g.tag(el("w:tc"))
			if g.Intn(4) > 0 {
				tc.add(g.elem("w:tcPr"))
			}
			np := g.Intn(3)
			if g.Intn(30) == 0 {
				np = 3 + g.Intn(5)
				if g.Intn(12) == 0 {
					np = many(g.Rand)
				}
			}
			for k := np; k > 0; k-- {
				g.again(tc)
				if rows > 8 || np > 4 || cols > 8 {
					tc.add(el("w:p", el("w:r", g.t())))
				} else {
					tc.add(g.para())
				}
			}
			tr.add(tc)
		}
		n.add(tr)
	}
	return n
}

func (g *Gen) pic() *Node {
	if g.shallow() {
		return g.wsp()
	}
	return g.tag(el("pic:pic", g.elem("pic:nvPicPr"), g.elem("pic:blipFill"), g.elem("pic:spPr")))
}

func (g *Gen) wsp() *Node {
	g.deep++
	defer func() { g.deep-- }()
	n := g.tag(el("wps:wsp"))
	if g.Intn(2) == 0 {
		n.add(g.elem("wps:cNvPr"))
	}
	if g.Intn(2) == 0 {
		n.add(g.elem("wps:cNvCnPr"))
	}
	if g.Intn(2) == 0 {
		n.add(g.elem("wps:cNvSpPr"))
	}
	if g.Intn(5) > 0 {
		n.add(g.elem("wps:spPr"))
	}
	if g.Intn(3) == 0 && g.Depth < 3 {
		g.Depth++
		c := g.tag(el("w:txbxContent"))
		for k := g.Intn(3); k > 0; k-- {
			c.add(g.para())
			g.again(c)
		}
		g.Depth--
		n.add(g.tag(el("wps:txbx", c)))
	}
	if g.Intn(5) > 0 {
		n.add(g.elem("wps:bodyPr"))
	}
	return n
}

func (g *Gen) wpc() *Node {
	g.deep++
	defer func() { g.deep-- }()
	n := g.tag(el("wpc:wpc"))
	if g.Intn(2) == 0 {
		n.add(g.elem("wpc:bg"))
	}
	if g.Intn(2) == 0 {
		n.add(g.elem("wpc:whole"))
	}
	g.Depth++
	for k := g.Intn(3); k > 0; k-- {
		switch {
		case g.Intn(2) == 0:
			n.add(g.wsp())
		case g.Intn(2) == 0 && g.Depth < 3:
			n.add(g.wgp())
		default:
			n.add(g.pic())
		}
	}
	g.Depth--
	return n
}

func (g *Gen) wgp() *Node {
	g.deep++
	defer func() { g.deep-- }()
	n := g.tag(el("wpg:wgp"))
	if g.Intn(4) > 0 {
		n.add(g.elem("wpg:cNvGrpSpPr"))
	}
	if g.Intn(4) > 0 {
		n.add(g.elem("wpg:grpSpPr"))
	}
	g.Depth++
	for k := g.Intn(3); k > 0; k-- {
		switch g.Intn(5) {
		case 0, 1:
			n.add(g.wsp())
		case 2:
			n.add(g.pic())
		case 3:
			if g.Depth < 3 {
				n.add(g.wpc())
			}
		default:
			n.add(g.grpSp())
		}
	}
	g.Depth--
	return n
}

func (g *Gen) grpSp() *Node {
	n := g.tag(el("wpg:grpSp"))
	if g.Intn(2) == 0 {
		n.add(g.elem("wpg:cNvPr"))
	}
	if g.Intn(2) == 0 {
		n.add(g.elem("wpg:cNvGrpSpPr"))
	}
	if g.Intn(2) == 0 {
		n.add(g.elem("wpg:grpSpPr"))
	}
	g.Depth++
	for k := g.Intn(3); k > 0; k-- {
		switch {
		case g.Intn(2) == 0:
			n.add(g.wsp())
		case g.Depth < 3 && g.Intn(3) == 0:
			n.add(g.wpc())
		default:
			n.add(g.pic())
		}
	}
	g.Depth--
	return n
}

const (
	uriPic = nsPIC
	uriWPS = nsWPS
	uriWPC = nsWPC
	uriWPG = nsWPG
)

func (g *Gen) drawing() *Node {
	var gd *Node
	k := g.Intn(6)
	if g.PicOnly {
		k = 0
	} else if g.NoNest || g.Depth >= 2 {
		k = g.Intn(4)
	}
	switch k {
	case 0, 1:
		gd = el("a:graphicData", g.pic()).set("uri", uriPic)
	case 2, 3:
		if g.NoNest {
			s := g.Depth
			g.Depth = 9
			gd = el("a:graphicData", g.wsp()).set("uri", uriWPS)
			g.Depth = s
		} else {
			gd = el("a:graphicData", g.wsp()).set("uri", uriWPS)
		}
	case 4:
		gd = el("a:graphicData", g.wpc()).set("uri", uriWPC)
	default:
		gd = el("a:graphicData", g.wgp()).set("uri", uriWPG)
	}
	g.tag(gd)
	graphic := g.tag(el("a:graphic", gd))
	if g.Hollow {
		switch g.Intn(12) {
		case 0:
			return g.tag(el("w:drawing"))
		case 1:
			graphic = nil
		case 2:
			graphic.Kids = nil
		case 3:
			gd.Kids = nil
		}
	}
	g.docPr++
	if g.Intn(12) == 0 && g.docPr < 1<<20 { // ids need not follow one another
		if x := []int{g.docPr + g.Intn(90), 99998, 65530, 131070, 165534, 1 << 30, 1<<31 - 1000}[g.Intn(7)] + g.Intn(3); x > g.docPr {
			g.docPr = x
		}
	}
	dp := g.elem("wp:docPr")
	for i := range dp.Attrs {
		if dp.Attrs[i].Key == "id" {
			dp.Attrs[i].Val = strconv.Itoa(g.docPr)
		}
	}
	d := g.tag(el("w:drawing"))
	if g.Intn(2) == 0 {
		in := g.elem("wp:inline")
		if g.Intn(6) > 0 {
			in.add(g.elem("wp:extent"))
		}
		if g.Intn(3) > 0 {
			in.add(g.elem("wp:effectExtent"))
		}
		if g.Intn(6) > 0 || g.NoDangle {
			in.add(dp)
		}
		if g.Intn(3) > 0 {
			in.add(g.elem("wp:cNvGraphicFramePr"))
		}
		if graphic != nil {
			in.add(graphic)
		}
		return d.add(in)
	}
	an := g.elem("wp:anchor")
	if g.Intn(3) > 0 {
		an.add(g.elem("wp:simplePos"))
	}
	if g.Intn(3) > 0 {
		an.add(g.elem("wp:positionH").add(el("wp:posOffset", tx(g.int64v()))))
	}
	if g.Intn(3) > 0 {
		an.add(g.elem("wp:positionV").add(el("wp:posOffset", tx(g.int64v()))))
	}
	if g.Intn(6) > 0 {
		an.add(g.elem("wp:extent"))
	}
	if g.Intn(3) > 0 {
		an.add(g.elem("wp:effectExtent"))
	}
	switch g.Intn(3) {
	case 0:
		an.add(el("wp:wrapNone"))
	case 1:
		an.add(g.elem("wp:wrapSquare"))
	}
	if g.Intn(6) > 0 || g.NoDangle {
		an.add(dp)
	}
	if g.Intn(3) > 0 {
		an.add(g.elem("wp:cNvGraphicFramePr"))
	}
	if graphic != nil {
		an.add(graphic)
	}
	return d.add(an)
}

// body makes a document body of about n items.
func (g *Gen) body(n int) *Node {
	b := g.tag(el("w:body"))
	for i := 0; i < n; i++ {
		if n > 12 && i > 3 && i < n-1 { // small ones
			if g.Intn(30) == 0 {
				b.add(el("w:tbl", el("w:tblPr"), el("w:tr", el("w:tc", el("w:p")))))
			} else {
				b.add(el("w:p", el("w:r", el("w:t", tx("p"+strconv.Itoa(i))))))
			}
			continue
		}
		g.again(b)
		switch g.Intn(8) {
		case 0, 1:
			b.add(g.table())
		case 2:
			if g.Intn(3) == 0 {
				b.add(g.elem("w:sectPr"))
				continue
			}
			b.add(g.para())
		default:
			b.add(g.para())
		}
	}
	if g.Intn(3) > 0 {
		b.add(g.elem("w:sectPr"))
	}
	return b
}

func (g *Gen) document(n int) *Node { return el("w:document", g.body(n)) }
