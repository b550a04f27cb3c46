package main

import (
	"regexp"
	"strings"
)

// foreignKids are real elements that the library does not know, by the
// element they stand in. The prefix w. is bound to that of WordprocessingML
// and so on, whatever the prefixes of the document are.
var foreignKids = map[string][]string{
	"w:body": {
		`<w.:bookmarkStart w.:id="7" w.:name="b"/>`, `<w.:bookmarkEnd w.:id="7"/>`, `<w.:proofErr w.:type="gramStart"/>`,
		`<w.:permStart w.:id="1" w.:edGrp="everyone"/>`, `<w.:altChunk r.:id="rId1"/>`, `<w.:moveFromRangeStart w.:id="3" w.:name="m"/>`,
		`<w.:customXml w.:element="e"><w.:p><w.:r><w.:t>custom</w.:t></w.:r></w.:p></w.:customXml>`,
		`<w.:ins w.:id="4" w.:author="x"><w.:p/></w.:ins>`,
		`<w.:sdt><w.:sdtPr><w.:id w.:val="1"/></w.:sdtPr><w.:sdtContent><w.:p/><w.:tbl><w.:tr><w.:tc><w.:p/></w.:tc></w.:tr></w.:tbl><w.:sectPr/></w.:sdtContent></w.:sdt>`,
		`<w.:oMathPara><w.:oMath><w.:r><w.:t>x</w.:t></w.:r></w.:oMath></w.:oMathPara>`,
	},
	"w:p": {
		`<w.:bookmarkStart w.:id="7" w.:name="b"/>`, `<w.:bookmarkEnd w.:id="7"/>`, `<w.:proofErr w.:type="spellEnd"/>`,
		`<w.:del w.:id="5" w.:author="x"><w.:r><w.:rPr><w.:b/></w.:rPr><w.:delText>gone</w.:delText></w.:r></w.:del>`,
		`<w.:ins w.:id="5" w.:author="x"><w.:r><w.:t>new</w.:t></w.:r></w.:ins>`, `<w.:moveTo w.:id="6"><w.:r><w.:t>moved</w.:t></w.:r></w.:moveTo>`,
		`<w.:smartTag w.:element="City"><w.:r><w.:t>Paris</w.:t></w.:r></w.:smartTag>`,
		`<w.:fldSimple w.:instr="PAGE"><w.:r><w.:t>1</w.:t></w.:r></w.:fldSimple>`, `<w.:subDoc r.:id="rId1"/>`,
		`<w.:sdt><w.:sdtContent><w.:r><w.:t>sdt</w.:t></w.:r><w.:hyperlink r.:id="rId1"/></w.:sdtContent></w.:sdt>`,
		`<w.:commentRangeStart w.:id="0"/>`, `<w.:dir w.:val="rtl"><w.:r><w.:t>dir</w.:t></w.:r></w.:dir>`,
		`<w.:oMath><w.:r><w.:t>x</w.:t></w.:r></w.:oMath>`,
	},
	"w:r": {
		`<w.:noBreakHyphen/>`, `<w.:softHyphen/>`, `<w.:cr/>`, `<w.:sym w.:font="Wingdings" w.:char="F0FC"/>`, `<w.:fldChar w.:fldCharType="begin"/>`,
		`<w.:footnoteReference w.:id="2"/>`, `<w.:delText xml:space="preserve"> del </w.:delText>`, `<w.:delInstrText>PAGE</w.:delInstrText>`,
		`<w.:ptab w.:relativeTo="margin" w.:alignment="right" w.:leader="none"/>`, `<w.:pgNum/>`, `<w.:annotationRef/>`, `<w.:lastRenderedPageBreak/>`,
		`<w.:object w.:dxaOrig="1"><v.:shape><v.:textbox><w.:txbxContent><w.:p><w.:r><w.:t>vml</w.:t></w.:r></w.:p></w.:txbxContent></v.:textbox></v.:shape></w.:object>`,
		`<w.:ruby><w.:rubyPr/><w.:rt><w.:r><w.:t>ruby</w.:t></w.:r></w.:rt><w.:rubyBase><w.:r><w.:t>base</w.:t></w.:r></w.:rubyBase></w.:ruby>`,
		`<w.:pict><w.:t>x</w.:t></w.:pict>`, `<w.:contentPart r.:id="rId1"/>`, `<w.:commentReference w.:id="0"/>`,
	},
	"w:hyperlink": {`<w.:bookmarkStart w.:id="7" w.:name="b"/>`, `<w.:proofErr w.:type="spellEnd"/>`, `<w.:ins w.:id="5"><w.:r><w.:t>new</w.:t></w.:r></w.:ins>`, `<w.:fldSimple w.:instr="PAGE"><w.:r><w.:t>1</w.:t></w.:r></w.:fldSimple>`},
	"w:pPr": {
		`<w.:keepNext/>`, `<w.:keepLines w.:val="0"/>`, `<w.:pageBreakBefore/>`, `<w.:framePr w.:w="5" w.:h="6"/>`, `<w.:widowControl w.:val="0"/>`,
		`<w.:pBdr><w.:top w.:val="single" w.:sz="4"/><w.:left w.:val="single"/></w.:pBdr>`, `<w.:autoSpaceDE w.:val="0"/>`, `<w.:autoSpaceDN/>`, `<w.:bidi/>`,
		`<w.:contextualSpacing/>`, `<w.:mirrorIndents/>`, `<w.:outlineLvl w.:val="3"/>`, `<w.:textDirection w.:val="lrTb"/>`, `<w.:cnfStyle w.:val="000"/>`,
		`<w.:topLinePunct w.:val="0"/>`, `<w.:wordWrap w.:val="0"/>`, `<w.:suppressAutoHyphens/>`, `<w.:divId w.:val="1"/>`, `<w.:suppressLineNumbers/>`,
		`<w.:sectPr><w.:pgSz w.:w="1" w.:h="2"/><w.:cols w.:space="3"/></w.:sectPr>`,
		`<w.:pPrChange w.:id="9"><w.:pPr><w.:jc w.:val="old"/><w.:ind w.:left="77"/><w.:pStyle w.:val="old"/></w.:pPr></w.:pPrChange>`,
	},
	"w:rPr": {
		`<w.:bCs/>`, `<w.:caps/>`, `<w.:smallCaps/>`, `<w.:dstrike/>`, `<w.:outline/>`, `<w.:shadow/>`, `<w.:emboss/>`, `<w.:imprint/>`, `<w.:noProof/>`, `<w.:vanish/>`,
		`<w.:webHidden/>`, `<w.:w w.:val="150"/>`, `<w.:position w.:val="6"/>`, `<w.:effect w.:val="lights"/>`, `<w.:bdr w.:val="single" w.:sz="9"/>`, `<w.:fitText w.:val="9"/>`,
		`<w.:rtl/>`, `<w.:cs/>`, `<w.:em w.:val="dot"/>`, `<w.:lang w.:val="en-US" w.:eastAsia="zh-CN"/>`, `<w.:specVanish/>`, `<w.:ins w.:id="3"/>`, `<w.:del w.:id="3"/>`,
		`<w.:rPrChange w.:id="9"><w.:rPr><w.:b/><w.:sz w.:val="99"/><w.:rFonts w.:ascii="Old"/></w.:rPr></w.:rPrChange>`,
	},
	"w:numPr": {`<w.:ins w.:id="3"/>`, `<w.:numberingChange w.:id="1" w.:original="1."/>`},
	"w:tbl":   {`<w.:bookmarkStart w.:id="7" w.:name="b"/>`, `<w.:sdt><w.:sdtContent><w.:tr><w.:tc><w.:p/></w.:tc></w.:tr></w.:sdtContent></w.:sdt>`, `<w.:customXml><w.:tr/></w.:customXml>`},
	"w:tblPr": {
		`<w.:tblOverlap w.:val="never"/>`, `<w.:bidiVisual/>`, `<w.:tblStyleRowBandSize w.:val="1"/>`, `<w.:tblStyleColBandSize w.:val="2"/>`, `<w.:tblCellSpacing w.:w="15" w.:type="dxa"/>`,
		`<w.:tblInd w.:w="15" w.:type="dxa"/>`, `<w.:tblLayout w.:type="fixed"/>`, `<w.:tblCellMar><w.:left w.:w="108" w.:type="dxa"/><w.:right w.:w="108" w.:type="dxa"/></w.:tblCellMar>`,
		`<w.:tblCaption w.:val="c"/>`, `<w.:tblDescription w.:val="d"/>`, `<w.:shd w.:val="clear" w.:fill="111111"/>`,
		`<w.:tblPrChange w.:id="9"><w.:tblPr><w.:jc w.:val="old"/><w.:tblW w.:w="3" w.:type="pct"/></w.:tblPr></w.:tblPrChange>`,
	},
	"w:tblBorders": {`<w.:start w.:val="dotted" w.:sz="3"/>`, `<w.:end w.:val="dotted" w.:color="112233"/>`},
	"w:tcBorders":  {`<w.:start w.:val="dotted" w.:sz="3"/>`, `<w.:end w.:val="dotted" w.:color="112233"/>`, `<w.:tl2br w.:val="single"/>`, `<w.:tr2bl w.:val="single" w.:sz="9"/>`},
	"w:tblGrid":    {`<w.:tblGridChange w.:id="1"><w.:tblGrid><w.:gridCol w.:w="77"/></w.:tblGrid></w.:tblGridChange>`},
	"w:tr": {
		`<w.:tblPrEx><w.:tblBorders><w.:top w.:val="old"/></w.:tblBorders><w.:jc w.:val="old"/></w.:tblPrEx>`, `<w.:bookmarkEnd w.:id="7"/>`,
		`<w.:sdt><w.:sdtContent><w.:tc><w.:p/></w.:tc></w.:sdtContent></w.:sdt>`, `<w.:customXml><w.:tc><w.:p/></w.:tc></w.:customXml>`,
	},
	"w:trPr": {
		`<w.:cantSplit/>`, `<w.:tblHeader/>`, `<w.:gridBefore w.:val="1"/>`, `<w.:wBefore w.:w="3" w.:type="dxa"/>`, `<w.:hidden/>`, `<w.:cnfStyle w.:val="1"/>`, `<w.:tblCellSpacing w.:w="15" w.:type="dxa"/>`,
		`<w.:trPrChange w.:id="9"><w.:trPr><w.:trHeight w.:val="99"/></w.:trPr></w.:trPrChange>`,
	},
	"w:tc": {`<w.:bookmarkStart w.:id="7" w.:name="b"/>`, `<w.:sdt><w.:sdtContent><w.:p><w.:r><w.:t>sdt</w.:t></w.:r></w.:p></w.:sdtContent></w.:sdt>`, `<w.:customXml><w.:p/></w.:customXml>`},
	"w:tcPr": {
		`<w.:cnfStyle w.:val="1"/>`, `<w.:hMerge w.:val="restart"/>`, `<w.:noWrap/>`, `<w.:tcMar><w.:top w.:w="5" w.:type="dxa"/><w.:left w.:w="6"/></w.:tcMar>`, `<w.:textDirection w.:val="btLr"/>`,
		`<w.:tcFitText/>`, `<w.:hideMark/>`, `<w.:cellIns w.:id="5"/>`, `<w.:tcPrChange w.:id="9"><w.:tcPr><w.:tcW w.:w="1"/><w.:gridSpan w.:val="9"/></w.:tcPr></w.:tcPrChange>`,
	},
	"w:sectPr": {
		`<w.:headerReference w.:type="default" r.:id="rId1"/>`, `<w.:footerReference w.:type="first" r.:id="rId1"/>`, `<w.:type w.:val="continuous"/>`, `<w.:titlePg/>`,
		`<w.:pgBorders><w.:top w.:val="single"/></w.:pgBorders>`, `<w.:lnNumType w.:countBy="1"/>`, `<w.:pgNumType w.:start="1"/>`, `<w.:vAlign w.:val="top"/>`, `<w.:noEndnote/>`, `<w.:bidi/>`,
		`<w.:footnotePr><w.:pos w.:val="x"/></w.:footnotePr>`, `<w.:sectPrChange w.:id="1"><w.:sectPr><w.:pgSz w.:w="1" w.:h="2"/></w.:sectPr></w.:sectPrChange>`,
	},
	"w:txbxContent": {`<w.:bookmarkStart w.:id="7" w.:name="b"/>`, `<w.:tbl><w.:tr><w.:tc><w.:p><w.:r><w.:t>in table</w.:t></w.:r></w.:p></w.:tc></w.:tr></w.:tbl>`, `<w.:sdt><w.:sdtContent><w.:p/></w.:sdtContent></w.:sdt>`},
	"wp:inline":     {`<wp4.:sizeRelH relativeFrom="page"><wp4.:pctWidth>0</wp4.:pctWidth></wp4.:sizeRelH>`},
	"wp:anchor":     {`<wp4.:sizeRelH relativeFrom="page"><wp4.:pctWidth>0</wp4.:pctWidth></wp4.:sizeRelH>`, `<wp.:wrapTight wrapText="bothSides"><wp.:wrapPolygon edited="0"><wp.:start x="0" y="0"/><wp.:lineTo x="9" y="9"/></wp.:wrapPolygon></wp.:wrapTight>`, `<wp.:wrapTopAndBottom/>`},
	"wp:positionH":  {`<wp.:align>center</wp.:align>`, `<wp4.:pctPosHOffset>5</wp4.:pctPosHOffset>`},
	"wp:positionV":  {`<wp.:align>top</wp.:align>`},
	"a:graphicData": {`<c.:chart r.:id="rId1"/>`, `<dgm.:relIds r.:dm="rId1"/>`},
	"pic:pic":       {`<a.:extLst><a.:ext uri="{x}"/></a.:extLst>`},
	"pic:nvPicPr":   {`<a.:extLst><a.:ext uri="{x}"/></a.:extLst>`},
	"pic:blipFill":  {`<a.:srcRect l="5" t="6"/>`, `<a.:tile tx="1" ty="2"/>`},
	"a:blip":        {`<a.:lum bright="70000" contrast="-70000"/>`, `<a.:grayscl/>`, `<a.:clrChange><a.:clrFrom><a.:srgbClr val="FFFFFF"/></a.:clrFrom></a.:clrChange>`, `<a.:extLst><a.:ext uri="{28A0092B}"/></a.:extLst>`},
	"pic:spPr":      {`<a.:noFill/>`, `<a.:ln w="9525"><a.:noFill/></a.:ln>`, `<a.:effectLst/>`, `<a.:solidFill><a.:srgbClr val="123456"/></a.:solidFill>`, `<a.:scene3d><a.:camera prst="orthographicFront"/></a.:scene3d>`},
	"wps:spPr":      {`<a.:effectLst><a.:outerShdw blurRad="5"><a.:srgbClr val="777777"/></a.:outerShdw></a.:effectLst>`, `<a.:gradFill rotWithShape="1"><a.:gsLst><a.:gs pos="0"><a.:srgbClr val="777777"/></a.:gs></a.:gsLst></a.:gradFill>`, `<a.:pattFill prst="pct5"/>`, `<a.:scene3d><a.:camera prst="orthographicFront"/></a.:scene3d>`},
	"a:ln":          {`<a.:bevel/>`, `<a.:gradFill><a.:gsLst/></a.:gradFill>`, `<a.:pattFill prst="pct5"/>`, `<a.:custDash><a.:ds d="1" sp="2"/></a.:custDash>`},
	"a:solidFill":   {`<a.:schemeClr val="accent1"><a.:lumMod val="75000"/></a.:schemeClr>`, `<a.:sysClr val="windowText" lastClr="000000"/>`, `<a.:prstClr val="black"/>`},
	"wps:wsp":       {`<wps.:style><a.:lnRef idx="2"><a.:schemeClr val="accent1"/></a.:lnRef><a.:fillRef idx="1"/></wps.:style>`, `<wps.:linkedTxbx id="3" seq="1"/>`},
	"wps:bodyPr":    {`<a.:spAutoFit/>`, `<a.:normAutofit fontScale="9"/>`, `<a.:prstTxWarp prst="textNoShape"><a.:avLst/></a.:prstTxWarp>`, `<a.:sp3d/>`},
	"wpc:wpc":       {`<wpc.:extLst/>`, `<wp4.:contentPart r.:id="rId1"/>`},
}

// foreignAttrs are real attributes that the library does not know.
var foreignAttrs = []string{
	"w.:rsidR=00AB12CD", "w.:rsidRPr=00AB12CD", "w.:rsidP=1", "w.:rsidTr=00000000", "w.:themeColor=accent1", "w.:themeShade=BF", "w.:themeTint=99", "w.:cs=Arial", "w.:cstheme=minorBidi",
	"w.:asciiTheme=minorHAnsi", "w.:start=720", "w.:end=360", "w.:startChars=5", "w.:endChars=5", "w.:after=77", "w.:afterLines=88", "w.:beforeAutospacing=1", "w.:afterAutospacing=0", "w.:orient=landscape", "w.:code=9",
	"w.:num=2", "w.:equalWidth=0", "w.:sep=1", "w.:clear=all", "w.:leader=dot", "w.:shadow=1", "w.:frame=1", "w.:tooltip=tip", "w.:history=1", "w.:tgtFrame=_blank", "w.:docLocation=x",
	"w.:bottomFromText=4", "w.:topFromText=3", "w.:charSpace=7", "w.:author=me", "w.:date=2020-01-01T00:00:00Z", "descr=a picture", "title=x", "hidden=1", "r.:link=rId1", "compatLnSpc=1", "numCol=2", "preferRelativeResize=0", "noGrp=1", "noResize=1",
	"w.:percent=5",
}

var foreignNS = map[string]string{
	"w": nsW, "r": nsR, "wp": nsWP, "wps": nsWPS, "wpc": nsWPC, "a": nsA, "v": nsV,
	"wp4": "http://schemas.microsoft.com/office/word/2010/wordprocessingDrawing",
	"c":   "http://schemas.openxmlformats.org/drawingml/2006/chart", "dgm": "http://schemas.openxmlformats.org/drawingml/2006/diagram",
}

var foreignPrefix = regexp.MustCompile(`[a-z0-9]+\.:`)

// bindForeign gives the prefixes of x that are written with a dot a name of
// their own and binds them: on the element x, or by an attribute after x.
func bindForeign(x string, element bool) string {
	decl, seen := "", map[string]bool{}
	x = foreignPrefix.ReplaceAllStringFunc(x, func(m string) string {
		p := m[:len(m)-2]
		if !seen[p] {
			seen[p] = true
			decl += ` xmlns:` + p + `._="` + foreignNS[p] + `"`
		}
		return p + "._:"
	})
	if !element {
		return x + decl
	}
	i := strings.IndexAny(x, " />")
	return x[:i] + decl + x[i:]
}

// foreignAttr gives an attribute that elements of the tag do not know.
func (s *Style) foreignAttr(tag string) string {
	spec := vocabAttrs[tag]
	if strings.HasPrefix(spec, "=") {
		spec = vocabAttrs[spec[1:]]
	}
	x := foreignAttrs[s.r.Intn(len(foreignAttrs))]
	i := strings.IndexByte(x, '=')
	local := x[strings.LastIndexByte(x[:i], ':')+1 : i]
	if strings.Contains(" "+spec, " "+local+":") || strings.Contains(spec, ":"+local+":") {
		return ""
	}
	return bindForeign(x[:i]+`="`+x[i+1:]+`"`, false)
}
