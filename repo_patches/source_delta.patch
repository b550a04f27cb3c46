From e51e2f78f33ed8f6d00f6cc81d3b8a40b892749a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:03 +0000
Subject: [PATCH 01/39] fix: always bind the a: and pic: prefixes of parsed
 drawings

---
 structcanvas.go  |  1 -
 structdrawing.go | 18 +++++++-----------
 2 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/structcanvas.go b/structcanvas.go
index fe08bb9..a18d2c4 100644
--- a/structcanvas.go
+++ b/structcanvas.go
@@ -76,7 +76,6 @@ func (c *WordprocessingCanvas) UnmarshalXML(d *xml.Decoder, _ xml.StartElement)
 				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
 					return err
 				}
-				value.XMLPIC = getAtt(tt.Attr, "pic")
 				c.Items = append(c.Items, &value)
 			case "wgp":
 				var value WordprocessingGroup
diff --git a/structdrawing.go b/structdrawing.go
index 78e348e..0965817 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -438,6 +438,8 @@ type WPCNvGraphicFramePr struct {
 
 // UnmarshalXML ...
 func (w *WPCNvGraphicFramePr) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
+	// the prefix a must always be bound, wherever the source declared it
+	w.Locks.XMLA = XMLNS_DRAWINGML_MAIN
 	for {
 		t, err := d.Token()
 		if err == io.EOF {
@@ -450,7 +452,6 @@ func (w *WPCNvGraphicFramePr) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) e
 		if tt, ok := t.(xml.StartElement); ok {
 			switch tt.Name.Local {
 			case "graphicFrameLocks":
-				w.Locks.XMLA = getAtt(tt.Attr, "a")
 				v := getAtt(tt.Attr, "noChangeAspect")
 				if v == "" {
 					continue
@@ -488,15 +489,9 @@ type AGraphic struct {
 }
 
 // UnmarshalXML ...
-func (a *AGraphic) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
-	for _, attr := range start.Attr {
-		switch attr.Name.Local {
-		case "a":
-			a.XMLA = attr.Value
-		default:
-			// ignore other attributes
-		}
-	}
+func (a *AGraphic) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
+	// the prefix a must always be bound, wherever the source declared it
+	a.XMLA = XMLNS_DRAWINGML_MAIN
 	for {
 		t, err := d.Token()
 		if err == io.EOF {
@@ -569,7 +564,6 @@ func (a *AGraphicData) UnmarshalXML(d *xml.Decoder, start xml.StartElement) erro
 				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
 					return err
 				}
-				value.XMLPIC = getAtt(tt.Attr, "pic")
 				a.Pic = &value
 			case "wsp":
 				var value WordprocessingShape
@@ -618,6 +612,8 @@ type Picture struct {
 
 // UnmarshalXML ...
 func (p *Picture) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
+	// the prefix pic must always be bound, wherever the source declared it
+	p.XMLPIC = XMLNS_DRAWINGML_PICTURE
 	for {
 		t, err := d.Token()
 		if err == io.EOF {
-- 
2.43.0


From 7c2bde1226cac197a0a6e6e2b209f1bc99c22b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:22 +0000
Subject: [PATCH 02/39] fix: keep the numbering properties of parsed paragraphs

---
 structpara.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/structpara.go b/structpara.go
index 8b5d31e..7962184 100644
--- a/structpara.go
+++ b/structpara.go
@@ -73,6 +73,13 @@ func (p *ParagraphProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) e
 					return err
 				}
 				p.Spacing = &value
+			case "numPr":
+				var value NumProperties
+				err = d.DecodeElement(&value, &tt)
+				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
+					return err
+				}
+				p.NumProperties = &value
 			case "ind":
 				var value Ind
 				err = d.DecodeElement(&value, &tt)
-- 
2.43.0


From a9fb51c515c3407b6c9bf85d046013344ab9c180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:08 +0000
Subject: [PATCH 03/39] fix: keep the adjust value list of shape geometries

---
 structeffects.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/structeffects.go b/structeffects.go
index bfe85aa..ad81ca1 100644
--- a/structeffects.go
+++ b/structeffects.go
@@ -215,7 +215,10 @@ func (w *ShapeProperties) UnmarshalXML(d *xml.Decoder, start xml.StartElement) e
 					return err
 				}
 			case "prstGeom":
-				w.PrstGeom.Prst = getAtt(tt.Attr, "prst")
+				err = d.DecodeElement(&w.PrstGeom, &tt)
+				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
+					return err
+				}
 			case "solidFill":
 				var value ASolidFill
 				err = d.DecodeElement(&value, &tt)
-- 
2.43.0


From 9fc9ddf86a5334a83f047215628413df98ca2aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:30 +0000
Subject: [PATCH 04/39] fix: leave optional string attributes out when the
 source has none

---
 structeffects.go | 4 ++--
 structsect.go    | 2 +-
 structshape.go   | 8 ++++----
 structtable.go   | 6 +++---
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/structeffects.go b/structeffects.go
index ad81ca1..641e376 100644
--- a/structeffects.go
+++ b/structeffects.go
@@ -113,7 +113,7 @@ type VertAlign struct {
 // Strike ...
 type Strike struct {
 	XMLName xml.Name `xml:"w:strike,omitempty"`
-	Val     string   `xml:"w:val,attr"`
+	Val     string   `xml:"w:val,attr,omitempty"`
 }
 
 // Shade is an element that represents a shading pattern applied to a document element.
@@ -175,7 +175,7 @@ type OverflowPunct struct {
 
 // ShapeProperties is a container element that represents the visual properties of a shape.
 type ShapeProperties struct {
-	BWMode string `xml:"bwMode,attr"`
+	BWMode string `xml:"bwMode,attr,omitempty"`
 
 	Xfrm      AXfrm
 	PrstGeom  APrstGeom
diff --git a/structsect.go b/structsect.go
index cc66873..b53c4e2 100644
--- a/structsect.go
+++ b/structsect.go
@@ -57,7 +57,7 @@ type Cols struct {
 
 // DocGrid show the document grid
 type DocGrid struct {
-	Type      string `xml:"w:type,attr"`
+	Type      string `xml:"w:type,attr,omitempty"`
 	LinePitch int    `xml:"w:linePitch,attr"`
 }
 
diff --git a/structshape.go b/structshape.go
index 9298006..dacbb0e 100644
--- a/structshape.go
+++ b/structshape.go
@@ -290,8 +290,8 @@ type ATile struct {
 	TY      int64    `xml:"ty,attr"`
 	SX      int64    `xml:"sx,attr"`
 	SY      int64    `xml:"sy,attr"`
-	Flip    string   `xml:"flip,attr"`
-	Algn    string   `xml:"algn,attr"`
+	Flip    string   `xml:"flip,attr,omitempty"`
+	Algn    string   `xml:"algn,attr,omitempty"`
 }
 
 // UnmarshalXML ...
@@ -463,13 +463,13 @@ type ASrgbClr struct {
 // APrstDash ...
 type APrstDash struct {
 	XMLName xml.Name `xml:"a:prstDash,omitempty"`
-	Val     string   `xml:"val,attr"`
+	Val     string   `xml:"val,attr,omitempty"`
 }
 
 // AMiter ...
 type AMiter struct {
 	XMLName xml.Name `xml:"a:miter,omitempty"`
-	Limit   string   `xml:"lim,attr"`
+	Limit   string   `xml:"lim,attr,omitempty"`
 }
 
 // AHeadEnd ...
diff --git a/structtable.go b/structtable.go
index 5a2727c..92fdf17 100644
--- a/structtable.go
+++ b/structtable.go
@@ -265,7 +265,7 @@ func (t *WTableStyle) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err
 type WTableWidth struct {
 	XMLName xml.Name `xml:"w:tblW,omitempty"`
 	W       int64    `xml:"w:w,attr"`
-	Type    string   `xml:"w:type,attr"`
+	Type    string   `xml:"w:type,attr,omitempty"`
 }
 
 // UnmarshalXML ...
@@ -294,7 +294,7 @@ func (t *WTableWidth) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err
 // WTableLook represents the look of a table in a Word document.
 type WTableLook struct {
 	XMLName  xml.Name `xml:"w:tblLook,omitempty"`
-	Val      string   `xml:"w:val,attr"`
+	Val      string   `xml:"w:val,attr,omitempty"`
 	FirstRow int      `xml:"w:firstRow,attr"`
 	LastRow  int      `xml:"w:lastRow,attr"`
 	FirstCol int      `xml:"w:firstColumn,attr"`
@@ -666,7 +666,7 @@ func (r *WTableCellProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement)
 type WTableCellWidth struct {
 	XMLName xml.Name `xml:"w:tcW,omitempty"`
 	W       int64    `xml:"w:w,attr"`
-	Type    string   `xml:"w:type,attr"`
+	Type    string   `xml:"w:type,attr,omitempty"`
 }
 
 // WvMerge element is used to specify whether a table cell
-- 
2.43.0


From f1976762b5f2b1ace4f8decf344df4d0f1fe4a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:31 +0000
Subject: [PATCH 05/39] fix: keep the value of w:b and w:i, which may switch
 them off

---
 structeffects.go | 2 ++
 structrun.go     | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/structeffects.go b/structeffects.go
index 641e376..5bca420 100644
--- a/structeffects.go
+++ b/structeffects.go
@@ -60,11 +60,13 @@ type SizeCs struct {
 // Bold ...
 type Bold struct {
 	XMLName xml.Name `xml:"w:b,omitempty"`
+	Val     string   `xml:"w:val,attr,omitempty"`
 }
 
 // Italic ...
 type Italic struct {
 	XMLName xml.Name `xml:"w:i,omitempty"`
+	Val     string   `xml:"w:val,attr,omitempty"`
 }
 
 // Underline ...
diff --git a/structrun.go b/structrun.go
index 1c97952..2e358ee 100644
--- a/structrun.go
+++ b/structrun.go
@@ -240,11 +240,11 @@ func (r *RunProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 				}
 				r.Fonts = &value
 			case "b":
-				r.Bold = &Bold{}
+				r.Bold = &Bold{Val: getAtt(tt.Attr, "val")}
 			case "iCs":
 				r.ICs = &struct{}{}
 			case "i":
-				r.Italic = &Italic{}
+				r.Italic = &Italic{Val: getAtt(tt.Attr, "val")}
 			case "u":
 				var value Underline
 				value.Val = getAtt(tt.Attr, "val")
-- 
2.43.0


From 492409f9831744573e82e0384ce45171e044ea3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:41 +0000
Subject: [PATCH 06/39] fix: consume leaf elements whole, whatever they contain

Leaf UnmarshalXML methods took the next token for the end of the element,
so a comment, a text node or an extension child inside one made the
decoder lose its place, and following siblings were dropped.
---
 structdrawing.go |  6 +++---
 structeffects.go |  8 ++++----
 structrun.go     |  2 +-
 structsect.go    |  8 ++++----
 structshape.go   |  8 ++++----
 structtable.go   | 12 ++++++------
 structtext.go    |  4 ++--
 7 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/structdrawing.go b/structdrawing.go
index 0965817..e998c0a 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -365,7 +365,7 @@ func (r *WPExtent) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
+	err = d.Skip()
 	return err
 }
 
@@ -397,7 +397,7 @@ func (r *WPEffectExtent) UnmarshalXML(d *xml.Decoder, start xml.StartElement) er
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
+	err = d.Skip()
 	return err
 }
 
@@ -426,7 +426,7 @@ func (r *WPDocPr) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 	}
 	// Consume the end element
-	_, err := d.Token()
+	err := d.Skip()
 	return err
 }
 
diff --git a/structeffects.go b/structeffects.go
index 5bca420..78b5943 100644
--- a/structeffects.go
+++ b/structeffects.go
@@ -147,7 +147,7 @@ func (s *Shade) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 	}
 	// Consume the end element
-	_, err := d.Token()
+	err := d.Skip()
 	return err
 }
 
@@ -278,7 +278,7 @@ func (r *NonVisualProperties) UnmarshalXML(d *xml.Decoder, start xml.StartElemen
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
+	err = d.Skip()
 	return
 }
 
@@ -325,7 +325,7 @@ func (s *Spacing) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err erro
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
+	err = d.Skip()
 	return
 }
 
@@ -398,6 +398,6 @@ func (i *Ind) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err error) {
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
+	err = d.Skip()
 	return
 }
diff --git a/structrun.go b/structrun.go
index 2e358ee..d1fb16b 100644
--- a/structrun.go
+++ b/structrun.go
@@ -343,6 +343,6 @@ func (f *RunFonts) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 	}
 	// Consume the end element
-	_, err := d.Token()
+	err := d.Skip()
 	return err
 }
diff --git a/structsect.go b/structsect.go
index b53c4e2..36f98f2 100644
--- a/structsect.go
+++ b/structsect.go
@@ -133,7 +133,7 @@ func (pgsz *PgSz) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
+	err = d.Skip()
 	return err
 }
 
@@ -183,7 +183,7 @@ func (pgmar *PgMar) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
+	err = d.Skip()
 	return err
 }
 
@@ -203,7 +203,7 @@ func (cols *Cols) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
+	err = d.Skip()
 	return err
 }
 
@@ -225,6 +225,6 @@ func (dg *DocGrid) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
+	err = d.Skip()
 	return err
 }
diff --git a/structshape.go b/structshape.go
index dacbb0e..caaa062 100644
--- a/structshape.go
+++ b/structshape.go
@@ -205,7 +205,7 @@ func (l *ASPLocks) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
+	err = d.Skip()
 	return err
 }
 
@@ -318,7 +318,7 @@ func (t *ATile) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err error)
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
+	err = d.Skip()
 	return err
 }
 
@@ -495,7 +495,7 @@ func (r *AHeadEnd) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 	}
 	// Consume the end element
-	_, err := d.Token()
+	err := d.Skip()
 	return err
 }
 
@@ -522,7 +522,7 @@ func (r *ATailEnd) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 	}
 	// Consume the end element
-	_, err := d.Token()
+	err := d.Skip()
 	return err
 }
 
diff --git a/structtable.go b/structtable.go
index 92fdf17..1e7c723 100644
--- a/structtable.go
+++ b/structtable.go
@@ -233,7 +233,7 @@ func (tp *WTablePositioningProperties) UnmarshalXML(d *xml.Decoder, start xml.St
 	}
 
 	// Consume the end element
-	_, err = d.Token()
+	err = d.Skip()
 	return err
 }
 
@@ -257,7 +257,7 @@ func (t *WTableStyle) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
+	err = d.Skip()
 	return err
 }
 
@@ -287,7 +287,7 @@ func (t *WTableWidth) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
+	err = d.Skip()
 	return err
 }
 
@@ -329,7 +329,7 @@ func (t *WTableLook) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error
 		}
 	}
 	// Consume the end element
-	_, err := d.Token()
+	err := d.Skip()
 	return err
 }
 
@@ -394,7 +394,7 @@ func (g *WGridCol) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
+	err = d.Skip()
 	return err
 }
 
@@ -807,7 +807,7 @@ func (t *WTableBorder) UnmarshalXML(d *xml.Decoder, start xml.StartElement) erro
 		}
 	}
 	// Consume the end element
-	_, err := d.Token()
+	err := d.Skip()
 	return err
 }
 
diff --git a/structtext.go b/structtext.go
index 5dc4796..a7f3067 100644
--- a/structtext.go
+++ b/structtext.go
@@ -84,7 +84,7 @@ func (t *Tab) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
+	err = d.Skip()
 	return err
 }
 
@@ -103,7 +103,7 @@ func (f *BarterRabbet) UnmarshalXML(d *xml.Decoder, start xml.StartElement) erro
 		}
 	}
 	// Consume the end element
-	_, err := d.Token()
+	err := d.Skip()
 	return err
 }
 
-- 
2.43.0


From ed3269d2bc11fcb2b152bcaba2cca0ac40cc1c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:51 +0000
Subject: [PATCH 07/39] fix: tolerate whitespace and comments in
 AlternateContent and unknown tags in tabs

The scan for a supported Choice called Skip on character data, comments
and end elements, and gave up when the first token inside the Choice was
not an element, so the drawing - or everything after it - was lost.
---
 structrun.go  | 22 +++++++++++++++-------
 structtext.go |  5 +++++
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/structrun.go b/structrun.go
index d1fb16b..90c66a4 100644
--- a/structrun.go
+++ b/structrun.go
@@ -151,14 +151,19 @@ func (r *Run) parse(d *xml.Decoder, tt xml.StartElement) (child interface{}, err
 				for _, attr := range ttt.Attr {
 					if attr.Name.Local == "Requires" {
 						if attr.Value == "wps" || attr.Value == "wpc" || attr.Value == "wpg" {
-							tok, err = d.Token() // go into choice
-							if err != nil {
-								return nil, err
+							for { // go into choice
+								tok, err = d.Token()
+								if err != nil {
+									return nil, err
+								}
+								if ttt, ok := tok.(xml.StartElement); ok {
+									child, err = r.parse(d, ttt)
+									break altcont
+								}
+								if _, ok := tok.(xml.EndElement); ok {
+									break altcont
+								}
 							}
-							if ttt, ok := tok.(xml.StartElement); ok {
-								child, err = r.parse(d, ttt)
-							}
-							break altcont
 						}
 						break
 					}
@@ -169,6 +174,9 @@ func (r *Run) parse(d *xml.Decoder, tt xml.StartElement) (child interface{}, err
 					break
 				}
 			}
+			if _, ok := tok.(xml.StartElement); !ok {
+				continue
+			}
 			err = d.Skip() // skip unsupported tags
 			if err != nil {
 				return nil, err
diff --git a/structtext.go b/structtext.go
index a7f3067..ef97362 100644
--- a/structtext.go
+++ b/structtext.go
@@ -52,6 +52,11 @@ func (tb *Tabs) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 					return err
 				}
 				tb.Tabs = append(tb.Tabs, &value)
+				continue
+			}
+			err = d.Skip() // skip unsupported tags
+			if err != nil {
+				return err
 			}
 		}
 	}
-- 
2.43.0


From 8c94db48a54b674d5d8fbfce9f2ae9ba90c8deab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:51 +0000
Subject: [PATCH 08/39] fix: keep all of a text split by comments or processing
 instructions

---
 structtext.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structtext.go b/structtext.go
index ef97362..635a55a 100644
--- a/structtext.go
+++ b/structtext.go
@@ -141,7 +141,7 @@ func (r *Text) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 
 		if tt, ok := t.(xml.CharData); ok {
-			r.Text = string(tt) // implicitly copy
+			r.Text += string(tt) // implicitly copy
 		}
 	}
 
-- 
2.43.0


From cc7eb98572cae7d76023e0035ba82115f09c32a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:43 +0000
Subject: [PATCH 09/39] fix: accept ST_OnOff words for integers and report
 invalid ones

'true', 'on', 'false' and 'off' are legal spellings of on/off attributes,
but they failed to parse, and the scan error begins with "expected",
which every caller takes for a harmless element type mismatch: the rest
of the enclosing element was dropped silently. The table look flags took
the first byte of the value minus '0'.
---
 helper.go      | 22 ++++++++++++++++++++--
 structtable.go | 18 +++++++++++-------
 2 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/helper.go b/helper.go
index d91ad81..8dc1dbd 100644
--- a/helper.go
+++ b/helper.go
@@ -47,12 +47,21 @@ func GetInt64(s string) (int64, error) {
 	if err == nil {
 		return v, nil
 	}
+	switch s { // ST_OnOff
+	case "true", "on":
+		return 1, nil
+	case "false", "off":
+		return 0, nil
+	}
 	v2, err := strconv.ParseFloat(s, 64)
 	if err == nil {
 		return int64(v2), nil
 	}
 	_, err = fmt.Sscanf(s, "%d", &v)
-	return v, err
+	if err != nil {
+		return 0, fmt.Errorf("invalid integer %q: %w", s, err)
+	}
+	return v, nil
 }
 
 // GetInt from string
@@ -61,10 +70,19 @@ func GetInt(s string) (int, error) {
 	if err == nil {
 		return v, nil
 	}
+	switch s { // ST_OnOff
+	case "true", "on":
+		return 1, nil
+	case "false", "off":
+		return 0, nil
+	}
 	v2, err := strconv.ParseFloat(s, 64)
 	if err == nil {
 		return int(v2), nil
 	}
 	_, err = fmt.Sscanf(s, "%d", &v)
-	return v, err
+	if err != nil {
+		return 0, fmt.Errorf("invalid integer %q: %w", s, err)
+	}
+	return v, nil
 }
diff --git a/structtable.go b/structtable.go
index 1e7c723..89739fb 100644
--- a/structtable.go
+++ b/structtable.go
@@ -305,6 +305,7 @@ type WTableLook struct {
 
 // UnmarshalXML ...
 func (t *WTableLook) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
+	var err error
 	for _, attr := range start.Attr {
 		if attr.Value == "" {
 			continue
@@ -313,23 +314,26 @@ func (t *WTableLook) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error
 		case "val":
 			t.Val = attr.Value
 		case "firstRow":
-			t.FirstRow = int(attr.Value[0] - '0')
+			t.FirstRow, err = GetInt(attr.Value)
 		case "lastRow":
-			t.LastRow = int(attr.Value[0] - '0')
+			t.LastRow, err = GetInt(attr.Value)
 		case "firstColumn":
-			t.FirstCol = int(attr.Value[0] - '0')
+			t.FirstCol, err = GetInt(attr.Value)
 		case "lastColumn":
-			t.LastCol = int(attr.Value[0] - '0')
+			t.LastCol, err = GetInt(attr.Value)
 		case "noHBand":
-			t.NoHBand = int(attr.Value[0] - '0')
+			t.NoHBand, err = GetInt(attr.Value)
 		case "noVBand":
-			t.NoVBand = int(attr.Value[0] - '0')
+			t.NoVBand, err = GetInt(attr.Value)
 		default:
 			// ignore other attributes
 		}
+		if err != nil {
+			return err
+		}
 	}
 	// Consume the end element
-	err := d.Skip()
+	err = d.Skip()
 	return err
 }
 
-- 
2.43.0


From 18bff3d0ddb6d362209c8ab6a6810fd17d77b40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:50 +0000
Subject: [PATCH 10/39] fix: report integers out of range instead of wrapping
 them

---
 helper.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/helper.go b/helper.go
index 8dc1dbd..ea85290 100644
--- a/helper.go
+++ b/helper.go
@@ -22,6 +22,7 @@ package docx
 
 import (
 	"fmt"
+	"math"
 	"strconv"
 	"unsafe"
 )
@@ -55,6 +56,9 @@ func GetInt64(s string) (int64, error) {
 	}
 	v2, err := strconv.ParseFloat(s, 64)
 	if err == nil {
+		if v2 != v2 || v2 < math.MinInt64 || v2 >= math.MaxInt64 {
+			return 0, fmt.Errorf("integer out of range: %q", s)
+		}
 		return int64(v2), nil
 	}
 	_, err = fmt.Sscanf(s, "%d", &v)
@@ -78,6 +82,9 @@ func GetInt(s string) (int, error) {
 	}
 	v2, err := strconv.ParseFloat(s, 64)
 	if err == nil {
+		if v2 != v2 || v2 < math.MinInt || v2 >= math.MaxInt {
+			return 0, fmt.Errorf("integer out of range: %q", s)
+		}
 		return int(v2), nil
 	}
 	_, err = fmt.Sscanf(s, "%d", &v)
-- 
2.43.0


From a6958f99f6fa78ce59b50dcded40b0916fec1a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:50 +0000
Subject: [PATCH 11/39] fix: open packages with directory entries in the zip

WriteTo tried to copy them like files and failed.
---
 unpack.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/unpack.go b/unpack.go
index 8b7f8a9..a32947d 100644
--- a/unpack.go
+++ b/unpack.go
@@ -44,6 +44,9 @@ func unpack(zipReader *zip.Reader) (docx *Docx, err error) {
 	docx.tmplfs = zipReader
 	docx.tmpfslst = make([]string, 0, 64)
 	for _, f := range zipReader.File {
+		if strings.HasSuffix(f.Name, "/") {
+			continue // directory entry
+		}
 		if f.Name == "word/_rels/document.xml.rels" {
 			err = docx.parseDocRelation(f)
 			if err != nil {
-- 
2.43.0


From e9af29241ea3983faa538820145fe28808857319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:40 +0000
Subject: [PATCH 12/39] fix: do not panic on pictures without data, media or
 properties

Rendering or copying a drawing dereferenced a missing graphic, blip fill,
media or name and cut the target at byte 6 whatever its length; such
drawings exist in parsed documents (linked pictures, absolute targets).
---
 media.go         | 18 ++++++++++++++++++
 structdrawing.go | 45 +++++++++++++++++++++++++--------------------
 2 files changed, 43 insertions(+), 20 deletions(-)

diff --git a/media.go b/media.go
index 01acb24..8990615 100644
--- a/media.go
+++ b/media.go
@@ -20,6 +20,8 @@
 
 package docx
 
+import "strings"
+
 //nolint:revive,stylecheck
 const MEDIA_FOLDER = `word/media/`
 
@@ -43,6 +45,22 @@ func (f *Docx) Media(name string) *Media {
 	return &f.media[i]
 }
 
+// referMedia gets the media that the relationship with the given id points to
+func (f *Docx) referMedia(id string) (*Media, error) {
+	if f == nil {
+		return nil, ErrRefIDNotFound
+	}
+	tgt, err := f.ReferTarget(id)
+	if err != nil {
+		return nil, err
+	}
+	m := f.Media(strings.TrimPrefix(strings.TrimPrefix(tgt, "/word/"), "media/"))
+	if m == nil {
+		return nil, ErrRefTargetNotFound
+	}
+	return m, nil
+}
+
 // addMedia append the media to docx's media list
 func (f *Docx) addMedia(m Media) {
 	f.mediaNameIdx[m.Name] = len(f.media)
diff --git a/structdrawing.go b/structdrawing.go
index e998c0a..0c052b1 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -228,6 +228,9 @@ func (r *WPInline) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 // String ...
 func (r *WPInline) String() string {
 	sb := strings.Builder{}
+	if r.Graphic == nil || r.Graphic.GraphicData == nil {
+		return "![inln?](unknown)"
+	}
 	if r.Graphic.GraphicData.Pic != nil {
 		sb.WriteString("![inlnim ")
 		switch {
@@ -235,16 +238,16 @@ func (r *WPInline) String() string {
 			sb.WriteString(r.DocPr.Name)
 		case r.Graphic.GraphicData.Pic.NonVisualPicProperties != nil:
 			sb.WriteString(r.Graphic.GraphicData.Pic.NonVisualPicProperties.NonVisualDrawingProperties.Name)
-		default:
+		case r.Graphic.GraphicData.Pic.BlipFill != nil:
 			sb.WriteString(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
 		}
 		sb.WriteString("](")
 		if r.Graphic.GraphicData.Pic.BlipFill != nil {
-			tgt, err := r.file.ReferTarget(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
+			m, err := r.file.referMedia(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
 			if err != nil {
 				sb.WriteString(err.Error())
 			} else {
-				h := md5.Sum(r.file.Media(tgt[6:]).Data)
+				h := md5.Sum(m.Data)
 				sb.WriteString(hex.EncodeToString(h[:]))
 			}
 		}
@@ -284,20 +287,19 @@ func (r *WPInline) String() string {
 }
 
 func (r *WPInline) copymedia(to *Docx) *WPInline {
+	if r.Graphic == nil || r.Graphic.GraphicData == nil {
+		return nil
+	}
 	if r.Graphic.GraphicData.Pic != nil {
 		if r.Graphic.GraphicData.Pic.BlipFill != nil {
-			tgt, err := r.file.ReferTarget(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
+			m, err := r.file.referMedia(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
 			if err != nil {
 				return nil
 			}
-			format := tgt[strings.LastIndex(tgt, ".")+1:]
+			format := m.Name[strings.LastIndex(m.Name, ".")+1:]
 			idn := int(atomic.AddUintptr(&to.docID, 1))
 			id := int(to.IncreaseID("图片"))
 			ids := strconv.Itoa(id)
-			m := r.file.Media(tgt[6:])
-			if m == nil {
-				return nil
-			}
 			rid := to.addImage(format, m.Data)
 			inln := *r
 			grph := *r.Graphic
@@ -319,7 +321,9 @@ func (r *WPInline) copymedia(to *Docx) *WPInline {
 					ID:   id,
 					Name: "图片 " + ids,
 				},
-				CNvPicPr: r.Graphic.GraphicData.Pic.NonVisualPicProperties.CNvPicPr,
+			}
+			if r.Graphic.GraphicData.Pic.NonVisualPicProperties != nil {
+				pic.NonVisualPicProperties.CNvPicPr = r.Graphic.GraphicData.Pic.NonVisualPicProperties.CNvPicPr
 			}
 			pic.BlipFill = &PICBlipFill{
 				Blip: ABlip{
@@ -1320,16 +1324,16 @@ func (r *WPAnchor) String() string {
 				sb.WriteString(r.DocPr.Name)
 			case r.Graphic.GraphicData.Pic.NonVisualPicProperties != nil:
 				sb.WriteString(r.Graphic.GraphicData.Pic.NonVisualPicProperties.NonVisualDrawingProperties.Name)
-			default:
+			case r.Graphic.GraphicData.Pic.BlipFill != nil:
 				sb.WriteString(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
 			}
 			sb.WriteString("](")
 			if r.Graphic.GraphicData.Pic.BlipFill != nil {
-				tgt, err := r.file.ReferTarget(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
+				m, err := r.file.referMedia(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
 				if err != nil {
 					sb.WriteString(err.Error())
 				} else {
-					h := md5.Sum(r.file.Media(tgt[6:]).Data)
+					h := md5.Sum(m.Data)
 					sb.WriteString(hex.EncodeToString(h[:]))
 				}
 			}
@@ -1370,20 +1374,19 @@ func (r *WPAnchor) String() string {
 }
 
 func (r *WPAnchor) copymedia(to *Docx) *WPAnchor {
+	if r.Graphic == nil || r.Graphic.GraphicData == nil {
+		return nil
+	}
 	if r.Graphic.GraphicData.Pic != nil {
 		if r.Graphic.GraphicData.Pic.BlipFill != nil {
-			tgt, err := r.file.ReferTarget(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
+			m, err := r.file.referMedia(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
 			if err != nil {
 				return nil
 			}
-			format := tgt[strings.LastIndex(tgt, ".")+1:]
+			format := m.Name[strings.LastIndex(m.Name, ".")+1:]
 			idn := int(atomic.AddUintptr(&to.docID, 1))
 			id := int(to.IncreaseID("图片"))
 			ids := strconv.Itoa(id)
-			m := r.file.Media(tgt[6:])
-			if m == nil {
-				return nil
-			}
 			rid := to.addImage(format, m.Data)
 			anch := *r
 			grph := *r.Graphic
@@ -1405,7 +1408,9 @@ func (r *WPAnchor) copymedia(to *Docx) *WPAnchor {
 					ID:   id,
 					Name: "图片 " + ids,
 				},
-				CNvPicPr: r.Graphic.GraphicData.Pic.NonVisualPicProperties.CNvPicPr,
+			}
+			if r.Graphic.GraphicData.Pic.NonVisualPicProperties != nil {
+				pic.NonVisualPicProperties.CNvPicPr = r.Graphic.GraphicData.Pic.NonVisualPicProperties.CNvPicPr
 			}
 			pic.BlipFill = &PICBlipFill{
 				Blip: ABlip{
-- 
2.43.0


From 65aee97cf5e4374343eb87f510db381bd5e6a0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:54 +0000
Subject: [PATCH 13/39] fix: bind drawings added by the API and drawings in
 hyperlinks to their file

Rendering, splitting or appending a document with such a drawing
dereferenced a nil document.
---
 apidrawing.go | 4 ++++
 apishape.go   | 4 ++++
 structpara.go | 1 +
 3 files changed, 9 insertions(+)

diff --git a/apidrawing.go b/apidrawing.go
index e2e7c61..604e440 100644
--- a/apidrawing.go
+++ b/apidrawing.go
@@ -48,7 +48,9 @@ func (p *Paragraph) AddInlineDrawing(pic []byte) (*Run, error) {
 		w = A4_EMU_MAX_WIDTH / 2
 	}
 	d := &Drawing{
+		file: p.file,
 		Inline: &WPInline{
+			file: p.file,
 			// AnchorID: fmt.Sprintf("%08X", rand.Uint32()),
 			// EditID:   fmt.Sprintf("%08X", rand.Uint32()),
 
@@ -151,7 +153,9 @@ func (p *Paragraph) AddAnchorDrawing(pic []byte) (*Run, error) {
 		w = A4_EMU_MAX_WIDTH / 2
 	}
 	d := &Drawing{
+		file: p.file,
 		Anchor: &WPAnchor{
+			file:         p.file,
 			LayoutInCell: 1,
 			AllowOverlap: 1,
 
diff --git a/apishape.go b/apishape.go
index 4ca918a..d32fb8c 100644
--- a/apishape.go
+++ b/apishape.go
@@ -30,7 +30,9 @@ func (p *Paragraph) AddInlineShape(w, h int64, name, bwMode, prst string, ln *AL
 	idn := int(atomic.AddUintptr(&p.file.docID, 1))
 	id := strconv.Itoa(int(p.file.IncreaseID(name)))
 	d := &Drawing{
+		file: p.file,
 		Inline: &WPInline{
+			file: p.file,
 			Extent: &WPExtent{
 				CX: w,
 				CY: h,
@@ -87,7 +89,9 @@ func (p *Paragraph) AddAnchorShape(w, h int64, name, bwMode, prst string, ln *AL
 	idn := int(atomic.AddUintptr(&p.file.docID, 1))
 	id := strconv.Itoa(int(p.file.IncreaseID(name)))
 	d := &Drawing{
+		file: p.file,
 		Anchor: &WPAnchor{
+			file:         p.file,
 			LayoutInCell: 1,
 			AllowOverlap: 1,
 
diff --git a/structpara.go b/structpara.go
index 7962184..6ab708d 100644
--- a/structpara.go
+++ b/structpara.go
@@ -263,6 +263,7 @@ func (p *Paragraph) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 			switch tt.Name.Local {
 			case "hyperlink":
 				var value Hyperlink
+				value.Run.file = p.file
 				err = d.DecodeElement(&value, &tt)
 				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
 					return err
-- 
2.43.0


From e5a6523888f8dcc7b18864840d27f1e1c9a3b982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:05 +0000
Subject: [PATCH 14/39] fix: render the text of hyperlinks whose text is not in
 instrText

Hyperlinks made by word processors keep their text in w:t, so the plain
text of a parsed document had empty brackets for every link.
---
 structpara.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structpara.go b/structpara.go
index 6ab708d..6869cd9 100644
--- a/structpara.go
+++ b/structpara.go
@@ -195,7 +195,7 @@ func (p *Paragraph) String() string {
 		switch o := c.(type) {
 		case *Hyperlink:
 			id := o.ID
-			text := o.Run.InstrText
+			text := o.Run.InstrText + (&Paragraph{Children: []interface{}{&o.Run}}).String()
 			link, err := p.file.ReferTarget(id)
 			sb.WriteString("[")
 			sb.WriteString(text)
-- 
2.43.0


From 32085a364574bbf855e7d9af1f7d7eb36653da5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:34 +0000
Subject: [PATCH 15/39] fix: keep the transparency of pictures copied to
 another document

---
 structdrawing.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/structdrawing.go b/structdrawing.go
index 0c052b1..018cd16 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -329,6 +329,8 @@ func (r *WPInline) copymedia(to *Docx) *WPInline {
 				Blip: ABlip{
 					Embed:  rid,
 					Cstate: r.Graphic.GraphicData.Pic.BlipFill.Blip.Cstate,
+
+					AlphaModFix: r.Graphic.GraphicData.Pic.BlipFill.Blip.AlphaModFix,
 				},
 				Stretch: r.Graphic.GraphicData.Pic.BlipFill.Stretch,
 			}
@@ -1416,6 +1418,8 @@ func (r *WPAnchor) copymedia(to *Docx) *WPAnchor {
 				Blip: ABlip{
 					Embed:  rid,
 					Cstate: r.Graphic.GraphicData.Pic.BlipFill.Blip.Cstate,
+
+					AlphaModFix: r.Graphic.GraphicData.Pic.BlipFill.Blip.AlphaModFix,
 				},
 				Stretch: r.Graphic.GraphicData.Pic.BlipFill.Stretch,
 			}
-- 
2.43.0


From 0dfbbb5d569c82394141a85f7018f037c06c88e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:19 +0000
Subject: [PATCH 16/39] fix: save links to bookmarks as such

A link to a bookmark was saved as a reference to a relationship named
like the bookmark, which does not exist: the link was lost and the
package unsound.
---
 structdoc.go  | 13 +++++++++++--
 structlink.go | 13 ++++++++++++-
 structpara.go |  5 ++++-
 3 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/structdoc.go b/structdoc.go
index 4265fa4..a3d40da 100644
--- a/structdoc.go
+++ b/structdoc.go
@@ -315,14 +315,23 @@ func (p *Paragraph) copymedia(to *Docx) (np Paragraph) {
 			continue
 		}
 		if h, ok := pc.(*Hyperlink); ok {
+			if h.Anchor != "" && h.ID == h.Anchor {
+				np.Children = append(np.Children, &Hyperlink{
+					ID:     h.ID,
+					Anchor: h.Anchor,
+					Run:    *h.Run.copymedia(to),
+				})
+				continue
+			}
 			tgt, err := p.file.ReferTarget(h.ID)
 			if err != nil {
 				continue
 			}
 			rid := to.addLinkRelation(tgt)
 			np.Children = append(np.Children, &Hyperlink{
-				ID:  rid,
-				Run: *h.Run.copymedia(to),
+				ID:     rid,
+				Anchor: h.Anchor,
+				Run:    *h.Run.copymedia(to),
 			})
 			continue
 		}
diff --git a/structlink.go b/structlink.go
index 3132b7d..d28819e 100644
--- a/structlink.go
+++ b/structlink.go
@@ -29,10 +29,21 @@ import (
 // Hyperlink element contains links
 type Hyperlink struct {
 	XMLName xml.Name `xml:"w:hyperlink,omitempty"`
-	ID      string   `xml:"r:id,attr"`
+	ID      string   `xml:"r:id,attr,omitempty"`
+	Anchor  string   `xml:"w:anchor,attr,omitempty"`
 	Run     Run
 }
 
+// MarshalXML ...
+func (r *Hyperlink) MarshalXML(e *xml.Encoder, _ xml.StartElement) error {
+	type plain Hyperlink
+	h := plain(*r)
+	if h.ID == h.Anchor { // a link to a bookmark has no relationship
+		h.ID = ""
+	}
+	return e.Encode(&h)
+}
+
 // UnmarshalXML ...
 func (r *Hyperlink) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 	for {
diff --git a/structpara.go b/structpara.go
index 6869cd9..c2f10a7 100644
--- a/structpara.go
+++ b/structpara.go
@@ -274,7 +274,10 @@ func (p *Paragraph) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 					value.ID = id
 				}
 				if anchor != "" {
-					value.ID = anchor
+					value.Anchor = anchor
+					if id == "" {
+						value.ID = anchor
+					}
 				}
 				elem = &value
 			case "r":
-- 
2.43.0


From 34e2d7aa7d195ce5b762b08227b2e64fdce3a368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:19 +0000
Subject: [PATCH 17/39] fix: keep the text of broken hyperlinks when splitting
 or appending

---
 structdoc.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/structdoc.go b/structdoc.go
index a3d40da..fcec2c5 100644
--- a/structdoc.go
+++ b/structdoc.go
@@ -324,7 +324,8 @@ func (p *Paragraph) copymedia(to *Docx) (np Paragraph) {
 				continue
 			}
 			tgt, err := p.file.ReferTarget(h.ID)
-			if err != nil {
+			if err != nil { // nowhere to link to, but keep the content
+				np.Children = append(np.Children, h.Run.copymedia(to))
 				continue
 			}
 			rid := to.addLinkRelation(tgt)
-- 
2.43.0


From 9a41fd943887927723b1506c2853274778d47c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:31 +0000
Subject: [PATCH 18/39] fix: give drawings and pictures added to an existing
 document fresh ids

The counters started at a constant after Parse, so a document edited
twice got the same media name and drawing id again and the new picture
replaced the old one; copied shapes kept the id of the original.
---
 id.go            |  8 ++++++++
 image.go         |  3 +++
 structdrawing.go | 32 ++++++++++++++++++++++++++++----
 unpack.go        |  2 --
 4 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/id.go b/id.go
index 31b6157..d933829 100644
--- a/id.go
+++ b/id.go
@@ -29,3 +29,11 @@ func (f *Docx) IncreaseID(name string) (n uintptr) {
 	f.slowIDsMu.Unlock()
 	return
 }
+
+// skipDocID makes sure that the id of a drawing already in the document is not
+// given to a new one
+func (f *Docx) skipDocID(id int) {
+	if f != nil && id > int(f.docID) && id < 1<<30 {
+		f.docID = uintptr(id)
+	}
+}
diff --git a/image.go b/image.go
index 93183c2..a263617 100644
--- a/image.go
+++ b/image.go
@@ -28,6 +28,9 @@ import (
 // addImage add image to docx and return its rId
 func (f *Docx) addImage(format string, data []byte) string {
 	m := Media{Name: "image" + strconv.Itoa(int(atomic.AddUintptr(&f.imageID, 1))) + "." + format, Data: data}
+	for f.Media(m.Name) != nil { // do not replace a media of the parsed file
+		m.Name = "image" + strconv.Itoa(int(atomic.AddUintptr(&f.imageID, 1))) + "." + format
+	}
 	f.addMedia(m)
 	return f.addImageRelation(m)
 }
diff --git a/structdrawing.go b/structdrawing.go
index 018cd16..fdb2228 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -198,6 +198,7 @@ func (r *WPInline) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
 					return err
 				}
+				r.file.skipDocID(r.DocPr.ID)
 			case "cNvGraphicFramePr":
 				var value WPCNvGraphicFramePr
 				err = d.DecodeElement(&value, &tt)
@@ -286,6 +287,17 @@ func (r *WPInline) String() string {
 	return "![inln?](unknown)"
 }
 
+// copyto copies a drawing without media under a new id
+func (r *WPInline) copyto(to *Docx) *WPInline {
+	nr := *r
+	if r.DocPr != nil {
+		pr := *r.DocPr
+		pr.ID = int(atomic.AddUintptr(&to.docID, 1))
+		nr.DocPr = &pr
+	}
+	return &nr
+}
+
 func (r *WPInline) copymedia(to *Docx) *WPInline {
 	if r.Graphic == nil || r.Graphic.GraphicData == nil {
 		return nil
@@ -339,10 +351,10 @@ func (r *WPInline) copymedia(to *Docx) *WPInline {
 		return nil
 	}
 	if r.Graphic.GraphicData.Shape != nil { // shape has no media
-		return r
+		return r.copyto(to)
 	}
 	if r.Graphic.GraphicData.Canvas != nil { //TODO: copy canvas media
-		return r
+		return r.copyto(to)
 	}
 	return nil
 }
@@ -1290,6 +1302,7 @@ func (r *WPAnchor) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
 					return err
 				}
+				r.file.skipDocID(r.DocPr.ID)
 			case "cNvGraphicFramePr":
 				r.CNvGraphicFramePr = new(WPCNvGraphicFramePr)
 				err = d.DecodeElement(r.CNvGraphicFramePr, &tt)
@@ -1375,6 +1388,17 @@ func (r *WPAnchor) String() string {
 	return "![anch?](unknown)"
 }
 
+// copyto copies a drawing without media under a new id
+func (r *WPAnchor) copyto(to *Docx) *WPAnchor {
+	nr := *r
+	if r.DocPr != nil {
+		pr := *r.DocPr
+		pr.ID = int(atomic.AddUintptr(&to.docID, 1))
+		nr.DocPr = &pr
+	}
+	return &nr
+}
+
 func (r *WPAnchor) copymedia(to *Docx) *WPAnchor {
 	if r.Graphic == nil || r.Graphic.GraphicData == nil {
 		return nil
@@ -1428,10 +1452,10 @@ func (r *WPAnchor) copymedia(to *Docx) *WPAnchor {
 		return nil
 	}
 	if r.Graphic.GraphicData.Shape != nil { // shape has no media
-		return r
+		return r.copyto(to)
 	}
 	if r.Graphic.GraphicData.Canvas != nil { //TODO: copy canvas media
-		return r
+		return r.copyto(to)
 	}
 	return nil
 }
diff --git a/unpack.go b/unpack.go
index a32947d..9a6d10d 100644
--- a/unpack.go
+++ b/unpack.go
@@ -71,7 +71,6 @@ func unpack(zipReader *zip.Reader) (docx *Docx, err error) {
 		// fill remaining files into tmpfslst
 		docx.tmpfslst = append(docx.tmpfslst, f.Name)
 	}
-	//TODO: find last imageID
 	docx.imageID = 100000
 	return
 }
@@ -98,7 +97,6 @@ func (f *Docx) parseDocument(file *zip.File) error {
 	f.Document.XMLName.Local = "document"
 
 	f.Document.Body.file = f
-	//TODO: find last docID
 	f.docID = 100000
 	err = xml.NewDecoder(zf).Decode(&f.Document)
 	return err
-- 
2.43.0


From 9fc86fbb45f4fdc8cb07d674367b602faf9c6e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:33 +0000
Subject: [PATCH 19/39] fix: return an error for images without any area
 instead of panicking

---
 apidrawing.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/apidrawing.go b/apidrawing.go
index 604e440..b0a3218 100644
--- a/apidrawing.go
+++ b/apidrawing.go
@@ -22,6 +22,7 @@ package docx
 
 import (
 	"bytes"
+	"errors"
 	"os"
 	"strconv"
 	"sync/atomic"
@@ -29,12 +30,18 @@ import (
 	"github.com/fumiama/imgsz"
 )
 
+// ErrInvalidImageSize is returned for an image without any area
+var ErrInvalidImageSize = errors.New("invalid image size")
+
 // AddInlineDrawing adds inline drawing to paragraph
 func (p *Paragraph) AddInlineDrawing(pic []byte) (*Run, error) {
 	sz, format, err := imgsz.DecodeSize(bytes.NewReader(pic))
 	if err != nil {
 		return nil, err
 	}
+	if sz.Width <= 0 || sz.Height <= 0 {
+		return nil, ErrInvalidImageSize
+	}
 	idn := int(atomic.AddUintptr(&p.file.docID, 1))
 	id := int(p.file.IncreaseID("图片"))
 	ids := strconv.Itoa(id)
@@ -140,6 +147,9 @@ func (p *Paragraph) AddAnchorDrawing(pic []byte) (*Run, error) {
 	if err != nil {
 		return nil, err
 	}
+	if sz.Width <= 0 || sz.Height <= 0 {
+		return nil, ErrInvalidImageSize
+	}
 	idn := int(atomic.AddUintptr(&p.file.docID, 1))
 	id := int(p.file.IncreaseID("图片"))
 	ids := strconv.Itoa(id)
-- 
2.43.0


From 3e82fed211477e73d08663b77cad20dc651b66fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:15 +0000
Subject: [PATCH 20/39] fix: keep text, order, spaces and field codes when
 merging runs

Merged text behind a tab or break was appended as the wrong object and
lost; runs were merged across the hyperlink between them; xml:space and
the instrText of the second run disappeared.
---
 structtext.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/structtext.go b/structtext.go
index 635a55a..dee5878 100644
--- a/structtext.go
+++ b/structtext.go
@@ -260,6 +260,9 @@ func (p *Paragraph) MergeText(canmerge RunMergeRule) (np Paragraph) {
 				case *Text:
 					if x.Text != "" {
 						t.Text += x.Text
+						if x.XMLSpace != "" {
+							t.XMLSpace = x.XMLSpace
+						}
 					}
 				default:
 					if t.Text != "" {
@@ -272,7 +275,7 @@ func (p *Paragraph) MergeText(canmerge RunMergeRule) (np Paragraph) {
 			if t.Text != "" {
 				r.Children = append(r.Children, t)
 			}
-			if prevrun != nil && canmerge(prevrun, &r) {
+			if prevrun != nil && prevrun.InstrText == "" && r.InstrText == "" && canmerge(prevrun, &r) {
 				var prevtext *Text
 				noappend := false
 				if len(prevrun.Children) == 0 {
@@ -291,13 +294,16 @@ func (p *Paragraph) MergeText(canmerge RunMergeRule) (np Paragraph) {
 					case *Text:
 						if x.Text != "" {
 							prevtext.Text += x.Text
+							if x.XMLSpace != "" {
+								prevtext.XMLSpace = x.XMLSpace
+							}
 						}
 					default:
 						if prevtext.Text != "" {
 							if noappend {
 								noappend = false
 							} else {
-								prevrun.Children = append(prevrun.Children, t)
+								prevrun.Children = append(prevrun.Children, prevtext)
 							}
 							prevtext = &Text{}
 						}
@@ -305,13 +311,14 @@ func (p *Paragraph) MergeText(canmerge RunMergeRule) (np Paragraph) {
 					}
 				}
 				if prevtext.Text != "" && !noappend {
-					prevrun.Children = append(prevrun.Children, t)
+					prevrun.Children = append(prevrun.Children, prevtext)
 				}
 			} else {
 				prevrun = &r
 				np.Children = append(np.Children, &r)
 			}
 		default:
+			prevrun = nil // runs on both sides are not contiguous
 			np.Children = append(np.Children, o)
 		}
 	}
-- 
2.43.0


From d858fb70fe69d4793a6914c5db064a0341e2c726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:15 +0000
Subject: [PATCH 21/39] fix: put the duplicate of a file next to it when its
 path has a directory

---
 cmd/main/main.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/main/main.go b/cmd/main/main.go
index ea83c3d..98db9d6 100644
--- a/cmd/main/main.go
+++ b/cmd/main/main.go
@@ -248,8 +248,8 @@ func main() {
 	if *dupnum > 1 {
 		a := strings.LastIndex(*fileLocation, "/")
 		name := "dup_" + (*fileLocation)
-		if a > 0 {
-			name = (*fileLocation)[:a+1] + "dup_" + (*fileLocation)[a:]
+		if a >= 0 {
+			name = (*fileLocation)[:a+1] + "dup_" + (*fileLocation)[a+1:]
 		}
 		f, err := os.Create(name)
 		if err != nil {
@@ -263,6 +263,10 @@ func main() {
 		if err != nil {
 			panic(err)
 		}
+		err = f.Close()
+		if err != nil {
+			panic(err)
+		}
 	}
 	fmt.Println("End of main")
 }
-- 
2.43.0


From 2bd5deda3bd666c1f337a9ca70c9e86a2b37e7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:16 +0000
Subject: [PATCH 22/39] fix: report errors writing the end of the package

---
 docx.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/docx.go b/docx.go
index c7753f4..2fec5ae 100644
--- a/docx.go
+++ b/docx.go
@@ -151,7 +151,12 @@ func LoadBodyItems(items []interface{}, media []Media) *Docx {
 // WriteTo allows to save a docx to a writer
 func (f *Docx) WriteTo(writer io.Writer) (_ int64, err error) {
 	zipWriter := zip.NewWriter(writer)
-	defer zipWriter.Close()
+	defer func() {
+		// the zip is not complete before its directory is written
+		if err1 := zipWriter.Close(); err == nil {
+			err = err1
+		}
+	}()
 
 	return 0, f.pack(zipWriter)
 }
-- 
2.43.0


From f310083bcdfb566edc1922bd65974a7ae0948989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:18 +0000
Subject: [PATCH 23/39] fix: close the template and media files that were
 opened

---
 pack.go   | 12 ++++++++----
 unpack.go |  3 ++-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/pack.go b/pack.go
index b864691..8a9eb2d 100644
--- a/pack.go
+++ b/pack.go
@@ -36,17 +36,21 @@ func (f *Docx) pack(zipWriter *zip.Writer) (err error) {
 
 	if f.template != "" {
 		for _, name := range f.tmpfslst {
-			files[name], err = f.tmplfs.Open("xml/" + f.template + "/" + name)
+			tf, err := f.tmplfs.Open("xml/" + f.template + "/" + name)
 			if err != nil {
-				return
+				return err
 			}
+			defer tf.Close()
+			files[name] = tf
 		}
 	} else {
 		for _, name := range f.tmpfslst {
-			files[name], err = f.tmplfs.Open(name)
+			tf, err := f.tmplfs.Open(name)
 			if err != nil {
-				return
+				return err
 			}
+			defer tf.Close()
+			files[name] = tf
 		}
 	}
 
diff --git a/unpack.go b/unpack.go
index 9a6d10d..2aa809e 100644
--- a/unpack.go
+++ b/unpack.go
@@ -137,11 +137,12 @@ func (f *Docx) parseMedia(file *zip.File) error {
 	if err != nil {
 		return err
 	}
+	defer zf.Close()
 	data, err := io.ReadAll(zf)
 	if err != nil {
 		return err
 	}
 	f.mediaNameIdx[name] = len(f.media)
 	f.media = append(f.media, Media{Name: name, Data: data})
-	return zf.Close()
+	return nil
 }
-- 
2.43.0


From 5eab6a1e2814c08bb7b930a832b7f006c491956f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:33 +0000
Subject: [PATCH 24/39] fix: bind the relationships of a parsed package to
 their namespace

---
 unpack.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unpack.go b/unpack.go
index 2aa809e..7d71a3e 100644
--- a/unpack.go
+++ b/unpack.go
@@ -41,6 +41,7 @@ func unpack(zipReader *zip.Reader) (docx *Docx, err error) {
 	docx = new(Docx)
 	docx.mediaNameIdx = make(map[string]int, 64)
 	docx.slowIDs = make(map[string]uintptr, 64)
+	docx.docRelation.Xmlns = XMLNS_REL
 	docx.tmplfs = zipReader
 	docx.tmpfslst = make([]string, 0, 64)
 	for _, f := range zipReader.File {
@@ -110,11 +111,11 @@ func (f *Docx) parseDocRelation(file *zip.File) error {
 	}
 	defer zf.Close()
 
-	f.docRelation.Xmlns = XMLNS_R
 	err = xml.NewDecoder(zf).Decode(&f.docRelation)
 	if err != nil {
 		return err
 	}
+	f.docRelation.Xmlns = XMLNS_REL // whichever prefix it was bound to
 	for _, r := range f.docRelation.Relationship {
 		if !strings.HasPrefix(r.ID, "rId") {
 			return errors.New("invalid rel ID: " + r.ID)
-- 
2.43.0


From bb97f6915fb182202302466b6654d3cdd3d05dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:33 +0000
Subject: [PATCH 25/39] fix: preserve leading and trailing spaces of added text

---
 apitext.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/apitext.go b/apitext.go
index 6e3b879..7c6c33d 100644
--- a/apitext.go
+++ b/apitext.go
@@ -52,9 +52,13 @@ func (p *Paragraph) AddText(text string) *Run {
 				c = append(c, &Tab{})
 			}
 			if k != "" {
-				c = append(c, &Text{
+				t := &Text{
 					Text: k,
-				})
+				}
+				if strings.TrimSpace(k) != k {
+					t.XMLSpace = "preserve"
+				}
+				c = append(c, t)
 			}
 		}
 	}
-- 
2.43.0


From a28a9f4c0d4056e3a916f08d3397f62a32c8064c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:33 +0000
Subject: [PATCH 26/39] fix: declare the content type of gif pictures in the
 default template

---
 xml/default/[Content_Types].xml | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xml/default/[Content_Types].xml b/xml/default/[Content_Types].xml
index 3ea9380..3b94743 100644
--- a/xml/default/[Content_Types].xml
+++ b/xml/default/[Content_Types].xml
@@ -1,6 +1,7 @@
 <?xml version="1.0" encoding="UTF-8" standalone="yes"?>
 <Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types">
     <Default Extension="jpeg" ContentType="image/jpeg"/>
+    <Default Extension="gif" ContentType="image/gif"/>
     <Default Extension="png" ContentType="image/png"/>
     <Default Extension="webp" ContentType="image/webp"/>
     <Default Extension="rels" ContentType="application/vnd.openxmlformats-package.relationships+xml"/>
-- 
2.43.0


From dc0f5314dab4e5ae86868d756162cfdac6814117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:54 +0000
Subject: [PATCH 27/39] fix: keep split documents related to the parts they are
 saved with

The parts got the relationships of a new document whatever the split
document was made of, so they pointed to missing parts and lost their
numbering, headers, footers and notes.
---
 structdoc.go | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/structdoc.go b/structdoc.go
index fcec2c5..217a825 100644
--- a/structdoc.go
+++ b/structdoc.go
@@ -242,28 +242,16 @@ newdoclop:
 		ndoc.Document.XMLName.Local = "document"
 		ndoc.Document.Body.file = ndoc
 
-		ndoc.docRelation = Relationships{
-			Xmlns: XMLNS_REL,
-			Relationship: []Relationship{
-				{
-					ID:     "rId1",
-					Type:   `http://schemas.openxmlformats.org/officeDocument/2006/relationships/styles`,
-					Target: "styles.xml",
-				},
-				{
-					ID:     "rId2",
-					Type:   `http://schemas.openxmlformats.org/officeDocument/2006/relationships/theme`,
-					Target: "theme/theme1.xml",
-				},
-				{
-					ID:     "rId3",
-					Type:   `http://schemas.openxmlformats.org/officeDocument/2006/relationships/fontTable`,
-					Target: "fontTable.xml",
-				},
-			},
+		// the parts of the template stay related, links and pictures follow
+		// their paragraphs
+		ndoc.docRelation.Xmlns = XMLNS_REL
+		for _, r := range f.docRelation.Relationship {
+			if r.Type != REL_HYPERLINK && r.Type != REL_IMAGE {
+				ndoc.docRelation.Relationship = append(ndoc.docRelation.Relationship, r)
+			}
 		}
 
-		ndoc.rID = 3
+		ndoc.rID = f.rID
 
 		for i, item := range items {
 			switch o := item.(type) {
-- 
2.43.0


From 418466d378311ffb48458121554af89753dbd8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:48 +0000
Subject: [PATCH 28/39] fix: do not panic setting properties that a parsed
 element lacks

---
 apirun.go   | 30 +++++++++++++++++++-----------
 apitable.go |  9 +++++++++
 2 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/apirun.go b/apirun.go
index f5d2b83..068d52c 100644
--- a/apirun.go
+++ b/apirun.go
@@ -20,9 +20,17 @@
 
 package docx
 
+// properties gets the run properties to set, which a parsed run may lack
+func (r *Run) properties() *RunProperties {
+	if r.RunProperties == nil {
+		r.RunProperties = &RunProperties{}
+	}
+	return r.RunProperties
+}
+
 // Color allows to set run color
 func (r *Run) Color(color string) *Run {
-	r.RunProperties.Color = &Color{
+	r.properties().Color = &Color{
 		Val: color,
 	}
 	return r
@@ -30,7 +38,7 @@ func (r *Run) Color(color string) *Run {
 
 // Size allows to set run size
 func (r *Run) Size(size string) *Run {
-	r.RunProperties.Size = &Size{
+	r.properties().Size = &Size{
 		Val: size,
 	}
 	return r
@@ -38,7 +46,7 @@ func (r *Run) Size(size string) *Run {
 
 // SizeCs allows to set run sizecs
 func (r *Run) SizeCs(size string) *Run {
-	r.RunProperties.SizeCs = &SizeCs{
+	r.properties().SizeCs = &SizeCs{
 		Val: size,
 	}
 	return r
@@ -46,7 +54,7 @@ func (r *Run) SizeCs(size string) *Run {
 
 // Shade allows to set run shade
 func (r *Run) Shade(val, color, fill string) *Run {
-	r.RunProperties.Shade = &Shade{
+	r.properties().Shade = &Shade{
 		Val:   val,
 		Color: color,
 		Fill:  fill,
@@ -56,7 +64,7 @@ func (r *Run) Shade(val, color, fill string) *Run {
 
 // Spacing allows to set run spacing
 func (r *Run) Spacing(line int) *Run {
-	r.RunProperties.Spacing = &Spacing{
+	r.properties().Spacing = &Spacing{
 		Line: line,
 	}
 	return r
@@ -64,13 +72,13 @@ func (r *Run) Spacing(line int) *Run {
 
 // Bold ...
 func (r *Run) Bold() *Run {
-	r.RunProperties.Bold = &Bold{}
+	r.properties().Bold = &Bold{}
 	return r
 }
 
 // Italic ...
 func (r *Run) Italic() *Run {
-	r.RunProperties.Italic = &Italic{}
+	r.properties().Italic = &Italic{}
 	return r
 }
 
@@ -89,13 +97,13 @@ func (r *Run) Italic() *Run {
 //	dashLong: Specifies a long dash underline.
 //	wavyDouble: Specifies a double wavy underline.
 func (r *Run) Underline(val string) *Run {
-	r.RunProperties.Underline = &Underline{Val: val}
+	r.properties().Underline = &Underline{Val: val}
 	return r
 }
 
 // Highlight ...
 func (r *Run) Highlight(val string) *Run {
-	r.RunProperties.Highlight = &Highlight{Val: val}
+	r.properties().Highlight = &Highlight{Val: val}
 	return r
 }
 
@@ -105,7 +113,7 @@ func (r *Run) Strike(val bool) *Run {
 	if val {
 		trueFalseStr = "true"
 	}
-	r.RunProperties.Strike = &Strike{Val: trueFalseStr}
+	r.properties().Strike = &Strike{Val: trueFalseStr}
 	return r
 }
 
@@ -117,7 +125,7 @@ func (r *Run) AddTab() *Run {
 
 // Font sets the font of the run
 func (r *Run) Font(ascii, eastAsia, hansi, hint string) *Run {
-	r.RunProperties.Fonts = &RunFonts{
+	r.properties().Fonts = &RunFonts{
 		ASCII:    ascii,
 		EastAsia: eastAsia,
 		HAnsi:    hansi,
diff --git a/apitable.go b/apitable.go
index afe1ed1..4e4c321 100644
--- a/apitable.go
+++ b/apitable.go
@@ -166,6 +166,9 @@ func (f *Docx) AddTableTwips(
 //		both：两端对齐。
 //		distribute：分散对齐。
 func (t *Table) Justification(val string) *Table {
+	if t.TableProperties == nil {
+		t.TableProperties = &WTableProperties{}
+	}
 	if t.TableProperties.Justification == nil {
 		t.TableProperties.Justification = &Justification{Val: val}
 		return t
@@ -183,6 +186,9 @@ func (t *Table) Justification(val string) *Table {
 //		both：两端对齐。
 //		distribute：分散对齐。
 func (w *WTableRow) Justification(val string) *WTableRow {
+	if w.TableRowProperties == nil {
+		w.TableRowProperties = &WTableRowProperties{}
+	}
 	if w.TableRowProperties.Justification == nil {
 		w.TableRowProperties.Justification = &Justification{Val: val}
 		return w
@@ -193,6 +199,9 @@ func (w *WTableRow) Justification(val string) *WTableRow {
 
 // Shade allows to set cell's shade
 func (c *WTableCell) Shade(val, color, fill string) *WTableCell {
+	if c.TableCellProperties == nil {
+		c.TableCellProperties = &WTableCellProperties{}
+	}
 	c.TableCellProperties.Shade = &Shade{
 		Val:   val,
 		Color: color,
-- 
2.43.0


From d65747c388ea1a64a683de571bdf676068795c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:50 +0000
Subject: [PATCH 29/39] fix: drop drawings inside hyperlinks as well

---
 structpara.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/structpara.go b/structpara.go
index c2f10a7..c6f82a8 100644
--- a/structpara.go
+++ b/structpara.go
@@ -335,10 +335,21 @@ func (p *Paragraph) KeepElements(name ...string) {
 	p.Children = items
 }
 
+// runOf gets the run that a child of a paragraph is or has
+func runOf(child interface{}) *Run {
+	switch o := child.(type) {
+	case *Run:
+		return o
+	case *Hyperlink:
+		return &o.Run
+	}
+	return nil
+}
+
 // DropCanvas drops all canvases in paragraph
 func (p *Paragraph) DropCanvas() {
 	for _, pc := range p.Children {
-		if r, ok := pc.(*Run); ok {
+		if r := runOf(pc); r != nil {
 			nrc := make([]interface{}, 0, len(r.Children))
 			for _, rc := range r.Children {
 				if d, ok := rc.(*Drawing); ok {
@@ -363,7 +374,7 @@ func (p *Paragraph) DropCanvas() {
 // DropShape drops all shapes in paragraph
 func (p *Paragraph) DropShape() {
 	for _, pc := range p.Children {
-		if r, ok := pc.(*Run); ok {
+		if r := runOf(pc); r != nil {
 			nrc := make([]interface{}, 0, len(r.Children))
 			for _, rc := range r.Children {
 				if d, ok := rc.(*Drawing); ok {
@@ -388,7 +399,7 @@ func (p *Paragraph) DropShape() {
 // DropGroup drops all groups in paragraph
 func (p *Paragraph) DropGroup() {
 	for _, pc := range p.Children {
-		if r, ok := pc.(*Run); ok {
+		if r := runOf(pc); r != nil {
 			nrc := make([]interface{}, 0, len(r.Children))
 			for _, rc := range r.Children {
 				if d, ok := rc.(*Drawing); ok {
@@ -413,7 +424,7 @@ func (p *Paragraph) DropGroup() {
 // DropShapeAndCanvas drops all shapes and canvases in paragraph
 func (p *Paragraph) DropShapeAndCanvas() {
 	for _, pc := range p.Children {
-		if r, ok := pc.(*Run); ok {
+		if r := runOf(pc); r != nil {
 			nrc := make([]interface{}, 0, len(r.Children))
 			for _, rc := range r.Children {
 				if d, ok := rc.(*Drawing); ok {
@@ -438,7 +449,7 @@ func (p *Paragraph) DropShapeAndCanvas() {
 // DropShapeAndCanvasAndGroup drops all shapes, canvases and groups in paragraph
 func (p *Paragraph) DropShapeAndCanvasAndGroup() {
 	for _, pc := range p.Children {
-		if r, ok := pc.(*Run); ok {
+		if r := runOf(pc); r != nil {
 			nrc := make([]interface{}, 0, len(r.Children))
 			for _, rc := range r.Children {
 				if d, ok := rc.(*Drawing); ok {
@@ -463,7 +474,7 @@ func (p *Paragraph) DropShapeAndCanvasAndGroup() {
 // DropNilPicture drops all drawings with nil picture in paragraph
 func (p *Paragraph) DropNilPicture() {
 	for _, pc := range p.Children {
-		if r, ok := pc.(*Run); ok {
+		if r := runOf(pc); r != nil {
 			nrc := make([]interface{}, 0, len(r.Children))
 			for _, rc := range r.Children {
 				if d, ok := rc.(*Drawing); ok {
-- 
2.43.0


From f32c6c5e72e13c63474ce5cd7565f97b3e71271d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:08 +0000
Subject: [PATCH 30/39] fix: keep groups when splitting or appending

---
 structdrawing.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/structdrawing.go b/structdrawing.go
index fdb2228..fae2ee4 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -356,6 +356,9 @@ func (r *WPInline) copymedia(to *Docx) *WPInline {
 	if r.Graphic.GraphicData.Canvas != nil { //TODO: copy canvas media
 		return r.copyto(to)
 	}
+	if r.Graphic.GraphicData.Group != nil { //TODO: copy group media
+		return r.copyto(to)
+	}
 	return nil
 }
 
@@ -1457,6 +1460,9 @@ func (r *WPAnchor) copymedia(to *Docx) *WPAnchor {
 	if r.Graphic.GraphicData.Canvas != nil { //TODO: copy canvas media
 		return r.copyto(to)
 	}
+	if r.Graphic.GraphicData.Group != nil { //TODO: copy group media
+		return r.copyto(to)
+	}
 	return nil
 }
 
-- 
2.43.0


From 2b0bbec9dce8579673142663ec66a928238fab87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:15 +0000
Subject: [PATCH 31/39] fix: verify the checksums of the document and
 relationship parts

---
 unpack.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/unpack.go b/unpack.go
index 7d71a3e..a24ce2e 100644
--- a/unpack.go
+++ b/unpack.go
@@ -100,6 +100,10 @@ func (f *Docx) parseDocument(file *zip.File) error {
 	f.Document.Body.file = f
 	f.docID = 100000
 	err = xml.NewDecoder(zf).Decode(&f.Document)
+	if err != nil {
+		return err
+	}
+	_, err = io.Copy(io.Discard, zf) // the checksum is verified at the end
 	return err
 }
 
@@ -115,6 +119,10 @@ func (f *Docx) parseDocRelation(file *zip.File) error {
 	if err != nil {
 		return err
 	}
+	_, err = io.Copy(io.Discard, zf) // the checksum is verified at the end
+	if err != nil {
+		return err
+	}
 	f.docRelation.Xmlns = XMLNS_REL // whichever prefix it was bound to
 	for _, r := range f.docRelation.Relationship {
 		if !strings.HasPrefix(r.ID, "rId") {
-- 
2.43.0


From d36c0550be6f468aa950d45dd1f6033dd2b85fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:56 +0000
Subject: [PATCH 32/39] fix: keep paragraph switches that have no value

---
 structpara.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/structpara.go b/structpara.go
index c6f82a8..92bb431 100644
--- a/structpara.go
+++ b/structpara.go
@@ -122,7 +122,7 @@ func (p *ParagraphProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) e
 				var value AdjustRightInd
 				v := getAtt(tt.Attr, "val")
 				if v == "" {
-					continue
+					v = "1" // no value means on
 				}
 				value.Val, err = GetInt(v)
 				if err != nil {
@@ -133,7 +133,7 @@ func (p *ParagraphProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) e
 				var value SnapToGrid
 				v := getAtt(tt.Attr, "val")
 				if v == "" {
-					continue
+					v = "1" // no value means on
 				}
 				value.Val, err = GetInt(v)
 				if err != nil {
@@ -144,7 +144,7 @@ func (p *ParagraphProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) e
 				var value Kinsoku
 				v := getAtt(tt.Attr, "val")
 				if v == "" {
-					continue
+					v = "1" // no value means on
 				}
 				value.Val, err = GetInt(v)
 				if err != nil {
@@ -155,7 +155,7 @@ func (p *ParagraphProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) e
 				var value OverflowPunct
 				v := getAtt(tt.Attr, "val")
 				if v == "" {
-					continue
+					v = "1" // no value means on
 				}
 				value.Val, err = GetInt(v)
 				if err != nil {
-- 
2.43.0


From 5b57c970fd4ea55e24a76824738ee3227372e663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:57 +0000
Subject: [PATCH 33/39] fix: keep the type of cell widths without a number

---
 structtable.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structtable.go b/structtable.go
index 89739fb..dc5676e 100644
--- a/structtable.go
+++ b/structtable.go
@@ -610,6 +610,7 @@ func (r *WTableCellProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement)
 			switch tt.Name.Local {
 			case "tcW":
 				r.TableCellWidth = new(WTableCellWidth)
+				r.TableCellWidth.Type = getAtt(tt.Attr, "type")
 				v := getAtt(tt.Attr, "w")
 				if v == "" {
 					continue
@@ -618,7 +619,6 @@ func (r *WTableCellProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement)
 				if err != nil {
 					return err
 				}
-				r.TableCellWidth.Type = getAtt(tt.Attr, "type")
 			case "vMerge":
 				r.VMerge = &WvMerge{Val: getAtt(tt.Attr, "val")}
 			case "gridSpan":
-- 
2.43.0


From 1d814374fa1bc2a1d3f925293dbf967c6d8f4940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:08 +0000
Subject: [PATCH 34/39] fix: report all numbers out of range

---
 helper.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/helper.go b/helper.go
index ea85290..205479f 100644
--- a/helper.go
+++ b/helper.go
@@ -21,6 +21,7 @@
 package docx
 
 import (
+	"errors"
 	"fmt"
 	"math"
 	"strconv"
@@ -55,8 +56,8 @@ func GetInt64(s string) (int64, error) {
 		return 0, nil
 	}
 	v2, err := strconv.ParseFloat(s, 64)
-	if err == nil {
-		if v2 != v2 || v2 < math.MinInt64 || v2 >= math.MaxInt64 {
+	if err == nil || errors.Is(err, strconv.ErrRange) { // infinite if out of range
+		if v2 != v2 || v2 <= math.MinInt64 || v2 >= math.MaxInt64 {
 			return 0, fmt.Errorf("integer out of range: %q", s)
 		}
 		return int64(v2), nil
@@ -81,8 +82,8 @@ func GetInt(s string) (int, error) {
 		return 0, nil
 	}
 	v2, err := strconv.ParseFloat(s, 64)
-	if err == nil {
-		if v2 != v2 || v2 < math.MinInt || v2 >= math.MaxInt {
+	if err == nil || errors.Is(err, strconv.ErrRange) { // infinite if out of range
+		if v2 != v2 || v2 <= math.MinInt || v2 >= math.MaxInt {
 			return 0, fmt.Errorf("integer out of range: %q", s)
 		}
 		return int(v2), nil
-- 
2.43.0


From d1657b7ab9cc18d6fd635d0c8cd0c22526bc12cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:11 +0000
Subject: [PATCH 35/39] fix: split files without an extension

---
 cmd/main/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/main/main.go b/cmd/main/main.go
index 98db9d6..1404a56 100644
--- a/cmd/main/main.go
+++ b/cmd/main/main.go
@@ -229,6 +229,9 @@ func main() {
 	if *splitre != "" {
 		a := strings.LastIndex(*fileLocation, "/")
 		b := strings.LastIndex(*fileLocation, ".")
+		if b <= a { // no extension
+			b = len(*fileLocation)
+		}
 		for i, splitteddoc := range doc.SplitByParagraph(docx.SplitDocxByPlainTextRegex(regexp.MustCompile(*splitre))) {
 			name := (*fileLocation)[:a+1] + "unmarshal_" + (*fileLocation)[a+1:b] + "_split" + strconv.Itoa(i) + (*fileLocation)[b:]
 			f, err := os.Create(name)
-- 
2.43.0


From e1260acff1136fa1090d5d5bfef65261a808d13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:51 +0000
Subject: [PATCH 36/39] fix: do not panic looking up references of elements
 without a document

---
 link.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/link.go b/link.go
index 46718f8..965825d 100644
--- a/link.go
+++ b/link.go
@@ -66,6 +66,9 @@ func (f *Docx) addImageRelation(m Media) string {
 
 // ReferTarget gets the target for a reference
 func (f *Docx) ReferTarget(id string) (string, error) {
+	if f == nil { // of an element that belongs to no document
+		return "", ErrRefIDNotFound
+	}
 	for _, a := range f.docRelation.Relationship {
 		if a.ID == id {
 			return a.Target, nil
@@ -76,6 +79,9 @@ func (f *Docx) ReferTarget(id string) (string, error) {
 
 // ReferID gets the rId from target
 func (f *Docx) ReferID(target string) (string, error) {
+	if f == nil { // of an element that belongs to no document
+		return "", ErrRefIDNotFound
+	}
 	for _, a := range f.docRelation.Relationship {
 		if a.Target == target {
 			return a.ID, nil
-- 
2.43.0


From 4ef39f88a61b8d98eef83e1f7576517f9b15b172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:41 +0000
Subject: [PATCH 37/39] fix: copy the properties of split and appended elements
 as well

---
 structdoc.go | 57 ++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 51 insertions(+), 6 deletions(-)

diff --git a/structdoc.go b/structdoc.go
index 217a825..3397028 100644
--- a/structdoc.go
+++ b/structdoc.go
@@ -261,13 +261,13 @@ newdoclop:
 					docs = append(docs, ndoc)
 					continue newdoclop
 				}
-				np := o.copymedia(ndoc)
+				np := clone(o).(*Paragraph).copymedia(ndoc)
 				ndoc.Document.Body.Items = append(ndoc.Document.Body.Items, &np)
 			case *Table:
-				nt := o.copymedia(ndoc)
+				nt := clone(o).(*Table).copymedia(ndoc)
 				ndoc.Document.Body.Items = append(ndoc.Document.Body.Items, &nt)
 			default:
-				ndoc.Document.Body.Items = append(ndoc.Document.Body.Items, o)
+				ndoc.Document.Body.Items = append(ndoc.Document.Body.Items, clone(o))
 			}
 		}
 
@@ -279,6 +279,51 @@ newdoclop:
 	return
 }
 
+// clone copies an element with all its properties and children, so that
+// changing the copy does not change the original
+func clone(elem interface{}) interface{} {
+	if elem == nil {
+		return nil
+	}
+	return cloneValue(reflect.ValueOf(elem)).Interface()
+}
+
+func cloneValue(v reflect.Value) reflect.Value {
+	switch v.Kind() {
+	case reflect.Ptr:
+		if v.IsNil() {
+			return v
+		}
+		n := reflect.New(v.Type().Elem())
+		n.Elem().Set(cloneValue(v.Elem()))
+		return n
+	case reflect.Interface:
+		if v.IsNil() {
+			return v
+		}
+		return cloneValue(v.Elem())
+	case reflect.Slice:
+		if v.IsNil() {
+			return v
+		}
+		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
+		for i := 0; i < v.Len(); i++ {
+			n.Index(i).Set(cloneValue(v.Index(i)))
+		}
+		return n
+	case reflect.Struct:
+		n := reflect.New(v.Type()).Elem()
+		n.Set(v) // the document it belongs to included
+		for i := 0; i < v.NumField(); i++ {
+			if v.Type().Field(i).IsExported() {
+				n.Field(i).Set(cloneValue(v.Field(i)))
+			}
+		}
+		return n
+	}
+	return v
+}
+
 func (r *Run) copymedia(to *Docx) *Run {
 	nr := *r
 	nr.Children = make([]interface{}, 0, len(r.Children))
@@ -357,13 +402,13 @@ func (f *Docx) AppendFile(af *Docx) {
 	for _, item := range af.Document.Body.Items {
 		switch o := item.(type) {
 		case *Paragraph:
-			np := o.copymedia(f)
+			np := clone(o).(*Paragraph).copymedia(f)
 			f.Document.Body.Items = append(f.Document.Body.Items, &np)
 		case *Table:
-			nt := o.copymedia(f)
+			nt := clone(o).(*Table).copymedia(f)
 			f.Document.Body.Items = append(f.Document.Body.Items, &nt)
 		default:
-			f.Document.Body.Items = append(f.Document.Body.Items, o)
+			f.Document.Body.Items = append(f.Document.Body.Items, clone(o))
 		}
 	}
 }
-- 
2.43.0


From 6c31c12516781d457a18ee74a5c500af950d83d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:42 +0000
Subject: [PATCH 38/39] fix: do not write behind the items and media given to
 LoadBodyItems

---
 docx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/docx.go b/docx.go
index 2fec5ae..b9406c4 100644
--- a/docx.go
+++ b/docx.go
@@ -113,7 +113,7 @@ func LoadBodyItems(items []interface{}, media []Media) *Docx {
 			XMLWPS: XMLNS_WPS,
 			XMLWPC: XMLNS_WPC,
 			XMLWPG: XMLNS_WPG,
-			Body:   Body{Items: items},
+			Body:   Body{Items: items[:len(items):len(items)]}, // adding does not write behind the given ones
 		},
 		docRelation: Relationships{
 			Xmlns: XMLNS_REL,
@@ -135,7 +135,7 @@ func LoadBodyItems(items []interface{}, media []Media) *Docx {
 				},
 			},
 		},
-		media:        media,
+		media:        media[:len(media):len(media)],
 		mediaNameIdx: make(map[string]int, 64),
 		rID:          3,
 		slowIDs:      make(map[string]uintptr, 64),
-- 
2.43.0


From a311ec527848e7c409e5938de62b142b24e249ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:01 +0000
Subject: [PATCH 39/39] fix: report numbers of a text body that cannot be read
 instead of taking them for 0

---
 structshape.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/structshape.go b/structshape.go
index caaa062..982920f 100644
--- a/structshape.go
+++ b/structshape.go
@@ -626,32 +626,35 @@ type WPSBodyPr struct {
 }
 
 // UnmarshalXML ...
-func (r *WPSBodyPr) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
+func (r *WPSBodyPr) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err error) {
 	for _, attr := range start.Attr {
 		switch attr.Name.Local {
 		case "rot":
-			r.Rot, _ = GetInt(attr.Value)
+			r.Rot, err = GetInt(attr.Value)
 		case "vert":
 			r.Vert = attr.Value
 		case "wrap":
 			r.Wrap = attr.Value
 		case "lIns":
-			r.LIns, _ = GetInt64(attr.Value)
+			r.LIns, err = GetInt64(attr.Value)
 		case "tIns":
-			r.TIns, _ = GetInt64(attr.Value)
+			r.TIns, err = GetInt64(attr.Value)
 		case "rIns":
-			r.RIns, _ = GetInt64(attr.Value)
+			r.RIns, err = GetInt64(attr.Value)
 		case "bIns":
-			r.BIns, _ = GetInt64(attr.Value)
+			r.BIns, err = GetInt64(attr.Value)
 		case "anchor":
 			r.Anchor = attr.Value
 		case "anchorCtr":
-			r.AnchorCtr, _ = GetInt(attr.Value)
+			r.AnchorCtr, err = GetInt(attr.Value)
 		case "upright":
-			r.Upright, _ = GetInt(attr.Value)
+			r.Upright, err = GetInt(attr.Value)
 		default:
 			// ignore other attributes
 		}
+		if err != nil {
+			return err
+		}
 	}
 	for {
 		t, err := d.Token()
-- 
2.43.0

