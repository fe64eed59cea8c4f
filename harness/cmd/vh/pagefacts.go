package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/benedoc-inc/pdfer/content/extract"
	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/types"
	"verif/harness/pdfx"
)

// P17: the pages of PageFacts.tla, read from documents.

func init() { props["P17"] = pageFactsReplay }

type pfEntry struct {
	Cat  string `json:"cat"`
	Name string `json:"name"`
	Obj  int    `json:"obj"`
}

type pfTrace struct {
	Nodes []struct {
		ID    int            `json:"id"`
		Group bool           `json:"group"`
		Kids  []int          `json:"kids"`
		Own   map[string]int `json:"own"`
		Notes []string       `json:"notes"`
	} `json:"nodes"`
	Res  [][]pfEntry `json:"res"`
	Read []struct {
		ID    int            `json:"id"`
		Has   map[string]int `json:"has"`
		Notes []string       `json:"notes"`
	} `json:"read"`
	Used []pfEntry `json:"used"`
}

type pfDoc struct {
	r      *rand.Rand
	d      *genDoc
	boxes  map[string][4]float64 // attribute and value
	turns  map[int]int
	objs   map[pfEntry]pdfx.Ref // of resources, by category and object
	fonts  map[int]types.FontInfo
	family map[int]bool // the font says its family
	images map[int]types.Image
	raw    map[int]bool // image data is samples
	notes  map[int][]types.Annotation
	shared map[int]pdfx.Val // resource dictionaries
}

// maybe gives a value directly or by reference.
func (p *pfDoc) maybe(v pdfx.Val) pdfx.Val {
	if p.r.Intn(4) == 0 {
		return p.d.add(v)
	}
	return v
}

func (p *pfDoc) nums(xs ...float64) pdfx.Val {
	a := pdfx.Arr{}
	for _, x := range xs {
		var v pdfx.Val = pdfx.Real(x)
		if x == math.Trunc(x) && p.r.Intn(4) > 0 {
			v = int(x)
		}
		if p.r.Intn(12) == 0 {
			v = p.d.add(v)
		}
		a = append(a, v)
	}
	return p.maybe(a)
}

// rect writes a rectangle by any two opposite corners.
func (p *pfDoc) rect(b [4]float64) pdfx.Val {
	switch p.r.Intn(8) {
	case 0:
		b[0], b[1], b[2], b[3] = b[2], b[3], b[0], b[1]
	case 1:
		b[0], b[2] = b[2], b[0]
	case 2:
		b[1], b[3] = b[3], b[1]
	}
	return p.nums(b[0], b[1], b[2], b[3])
}

func (p *pfDoc) newBox() [4]float64 {
	f := func(n int) float64 { return float64(p.r.Intn(n)) / []float64{1, 1, 2, 4, 10}[p.r.Intn(5)] }
	x, y := f(100), f(100)
	if p.r.Intn(3) == 0 {
		x, y = 0, 0
	} else if p.r.Intn(3) == 0 {
		x, y = -x, -y
	}
	return [4]float64{x, y, x + 1 + f(900), y + 1 + f(900)}
}

var pfNone = []string{"absent", "absent", "absent", "null", "nullref", "gone"}

// put sets an attribute to a value, or to none in one of the ways there are.
func (p *pfDoc) put(d pdfx.Dict, key string, v pdfx.Val) {
	if v != nil {
		d[key] = v
		return
	}
	switch pfNone[p.r.Intn(len(pfNone))] {
	case "null":
		d[key] = pdfx.Null{}
	case "nullref":
		d[key] = p.d.add(pdfx.Null{})
	case "gone":
		d[key] = pdfx.Ref{N: 900 + p.r.Intn(50)}
	}
}

func (p *pfDoc) attr(d pdfx.Dict, a string, v int, res [][]pfEntry) {
	var x pdfx.Val
	switch {
	case v == 0:
	case a == "Rotate":
		x = p.maybe(p.turns[v])
	case a == "Resources":
		x = p.resources(v, res[v-1])
	default:
		x = p.rect(p.boxes[fmt.Sprint(a, v)])
	}
	p.put(d, a, x)
}

func (p *pfDoc) resources(v int, entries []pfEntry) pdfx.Val {
	if x := p.shared[v]; x != nil && p.r.Intn(2) == 0 {
		return x
	}
	fonts, xobjs := pdfx.Dict{}, pdfx.Dict{}
	for _, e := range entries {
		if e.Cat == "font" {
			fonts[e.Name] = p.objs[pfEntry{Cat: "font", Obj: e.Obj}]
		} else {
			xobjs[e.Name] = p.objs[pfEntry{Cat: e.Cat, Obj: e.Obj}]
		}
	}
	if p.r.Intn(4) == 0 {
		fonts["Fx"] = pdfx.Null{}
		xobjs["Gone"] = pdfx.Ref{N: 960}
	}
	d := pdfx.Dict{}
	if len(fonts) > 0 || p.r.Intn(2) == 0 {
		d["Font"] = p.maybe(fonts)
	}
	if len(xobjs) > 0 || p.r.Intn(2) == 0 {
		d["XObject"] = p.maybe(xobjs)
	}
	if p.r.Intn(3) == 0 {
		d["ProcSet"] = pdfx.Arr{pdfx.Name("PDF"), pdfx.Name("Text")}
	}
	x := p.maybe(d)
	p.shared[v] = x
	return x
}

// font makes a font dictionary and what is to be said of it.
func (p *pfDoc) font(obj int) pdfx.Ref {
	r := p.r
	f := types.FontInfo{Subtype: "/" + []string{"Type1", "TrueType", "Type3", "MMType1", "Type0"}[r.Intn(5)]}
	name := []string{"Helvetica", "ABCDEF+Times-Bold", "Arial,Bold", "Noto Sans", "F#1", "Courier-BoldOblique"}[r.Intn(6)] + fmt.Sprint(obj)
	d := pdfx.Dict{"Type": pdfx.Name("Font"), "Subtype": p.maybe(pdfx.Name(f.Subtype[1:])), "BaseFont": p.maybe(pdfx.Name(name))}
	f.Name = "/" + name
	desc := pdfx.Dict{"Type": pdfx.Name("FontDescriptor"), "FontName": pdfx.Name(name)}
	if r.Intn(2) == 0 {
		p.family[obj] = true
		f.Family = randText(r)
		if f.Family == "" {
			f.Family = "x"
		}
		desc["FontFamily"] = p.maybe(textStr(r, f.Family))
	}
	if r.Intn(2) == 0 {
		f.Embedded = true
		desc[[]string{"FontFile", "FontFile2", "FontFile3"}[r.Intn(3)]] = p.d.add(&pdfx.Stream{D: pdfx.Dict{}, Raw: []byte("font program")})
	} else {
		p.put(desc, []string{"FontFile", "FontFile2", "FontFile3"}[r.Intn(3)], nil)
	}
	switch r.Intn(4) {
	case 0:
		f.Encoding = "/WinAnsiEncoding"
		d["Encoding"] = p.maybe(pdfx.Name("WinAnsiEncoding"))
	case 1:
		f.Encoding = "/MacRomanEncoding"
		d["Encoding"] = p.maybe(pdfx.Dict{"Type": pdfx.Name("Encoding"), "BaseEncoding": p.maybe(pdfx.Name("MacRomanEncoding")), "Differences": pdfx.Arr{65, pdfx.Name("B")}})
	case 2:
		d["Encoding"] = p.maybe(pdfx.Dict{"Differences": pdfx.Arr{65, pdfx.Name("B")}})
	}
	if f.Subtype == "/Type0" {
		f.Encoding = "/Identity-H"
		d["Encoding"] = pdfx.Name("Identity-H")
		d["DescendantFonts"] = p.maybe(pdfx.Arr{p.maybe(pdfx.Dict{"Type": pdfx.Name("Font"), "Subtype": pdfx.Name("CIDFontType2"), "BaseFont": pdfx.Name(name), "FontDescriptor": p.maybe(desc)})})
	} else {
		d["FontDescriptor"] = p.maybe(desc)
	}
	if r.Intn(2) == 0 {
		f.ToUnicode = true
		d["ToUnicode"] = p.d.add(&pdfx.Stream{D: pdfx.Dict{}, Raw: []byte("1 beginbfchar\n<41> <00410308>\nendbfchar")})
	} else {
		p.put(d, "ToUnicode", nil)
	}
	p.fonts[obj] = f
	return p.d.add(d)
}

// image makes an image and what is to be said of it.
func (p *pfDoc) image(obj int) pdfx.Ref {
	r := p.r
	im := types.Image{Width: 1 + obj + 20*r.Intn(50), Height: 1 + r.Intn(2000), BitsPerComponent: []int{1, 2, 4, 8, 16}[r.Intn(5)]}
	d := pdfx.Dict{"Type": pdfx.Name("XObject"), "Subtype": p.maybe(pdfx.Name("Image")), "Width": p.maybe(im.Width), "Height": p.maybe(im.Height), "BitsPerComponent": p.maybe(im.BitsPerComponent)}
	var cs pdfx.Val = pdfx.Name([]string{"DeviceRGB", "DeviceGray", "DeviceCMYK", "CS0"}[r.Intn(4)])
	switch r.Intn(5) {
	case 0:
		cs = pdfx.Arr{pdfx.Name("ICCBased"), p.d.add(&pdfx.Stream{D: pdfx.Dict{"N": 3}, Raw: []byte("profile")})}
	case 1:
		cs = pdfx.Arr{pdfx.Name("Indexed"), pdfx.Name("DeviceRGB"), 1, pdfx.Str("\x00(\\\xff)]")}
	}
	im.ColorSpace = string(pdfx.Write(cs))
	if r.Intn(8) == 0 {
		im.ColorSpace = ""
		p.put(d, "ColorSpace", nil)
	} else {
		d["ColorSpace"] = p.maybe(cs)
	}
	data := make([]byte, []int{1 + r.Intn(20), 1 + r.Intn(400), 3000}[r.Intn(3)])
	r.Read(data)
	if r.Intn(3) == 0 {
		data = bytes.Repeat([]byte{byte(r.Intn(256))}, len(data))
	}
	im.Data = data
	var filters, parms pdfx.Arr
	p.raw[obj] = true
	if r.Intn(2) == 0 {
		k := r.Intn(4)
		p.raw[obj] = false
		im.Format = []string{"jpeg", "jpeg2000", "tiff", "unknown"}[k]
		filters, parms = pdfx.Arr{pdfx.Name([]string{"DCTDecode", "JPXDecode", "CCITTFaxDecode", "JBIG2Decode"}[k])}, pdfx.Arr{pdfx.Null{}}
		switch k {
		case 0:
			im.Data = append([]byte("\xff\xd8\xff\xe0"), data...)
		case 2:
			parms[0] = pdfx.Dict{"K": -1, "Columns": im.Width}
		}
	}
	raw := append([]byte(nil), im.Data...)
	for n := []int{0, 0, 1, 1, 1, 2, 3}[r.Intn(7)]; n > 0; n-- {
		var parm pdfx.Val = pdfx.Null{}
		var name string
		switch r.Intn(5) {
		case 0:
			name, raw = "ASCIIHexDecode", pdfx.HexEnc(raw, "plain", r)
		case 1:
			name, raw = "ASCII85Decode", pdfx.A85Enc(raw, "plain", r)
		case 2:
			name, raw = "RunLengthDecode", pdfx.RLEnc(raw, "plain", r)
		default:
			name = "FlateDecode"
			if len(filters) == 0 && r.Intn(2) == 0 {
				cols := 1 + r.Intn(9)
				for len(raw)%cols > 0 {
					raw = append(raw, 7)
				}
				im.Data = append([]byte(nil), raw...)
				raw = pdfx.PredEncode(raw, cols, 1, func(int) byte { return byte(r.Intn(5)) })
				parm = pdfx.Dict{"Predictor": 10 + r.Intn(6), "Columns": p.maybe(cols)}
			}
			raw = pdfx.Deflate(raw)
		}
		filters, parms = append(pdfx.Arr{pdfx.Name(name)}, filters...), append(pdfx.Arr{parm}, parms...)
	}
	set := false
	for _, x := range parms {
		if _, ok := x.(pdfx.Null); !ok {
			set = true
		}
	}
	switch {
	case len(filters) == 0:
		p.put(d, "Filter", nil)
	case len(filters) == 1 && r.Intn(2) == 0:
		im.Filter = string(pdfx.Write(filters[0]))
		d["Filter"] = p.maybe(filters[0])
		if set {
			d["DecodeParms"] = p.maybe(parms[0])
		}
	default:
		im.Filter = string(pdfx.Write(filters))
		d["Filter"] = p.maybe(filters)
		if set || r.Intn(3) == 0 {
			d["DecodeParms"] = p.maybe(parms)
		}
	}
	p.images[obj] = im
	return p.d.add(&pdfx.Stream{D: d, Raw: raw})
}

// note makes an annotation and what is to be said of it.
func (p *pfDoc) note(kind string, pages []pdfx.Ref) (pdfx.Val, *types.Annotation) {
	r := p.r
	switch kind {
	case "null":
		return pdfx.Null{}, nil
	case "missing":
		return pdfx.Ref{N: 970 + r.Intn(20)}, nil
	case "notdict":
		return p.maybe([]pdfx.Val{3, pdfx.Str("x"), pdfx.Arr{1, 2}, pdfx.Name("Link")}[r.Intn(4)]), nil
	}
	d := pdfx.Dict{"Type": pdfx.Name("Annot")}
	a := &types.Annotation{}
	b := p.newBox()
	a.Rect = &types.Rectangle{LowerX: b[0], LowerY: b[1], UpperX: b[2], UpperY: b[3]}
	d["Rect"] = p.rect(b)
	for _, x := range []struct {
		key string
		to  *string
	}{{"Contents", &a.Contents}, {"T", &a.Title}, {"Subj", &a.Subject}} {
		if r.Intn(2) == 0 {
			*x.to = randText(r)
			d[x.key] = p.maybe(textStr(r, *x.to))
		} else {
			p.put(d, x.key, nil)
		}
	}
	f := func() float64 { return float64(r.Intn(101)) / 100 }
	switch r.Intn(6) {
	case 0:
		a.Color = &types.Color{Space: types.ColorSpaceGray, R: f()}
		d["C"] = p.nums(a.Color.R)
	case 1:
		a.Color = &types.Color{Space: types.ColorSpaceRGB, R: f(), G: f(), B: f()}
		d["C"] = p.nums(a.Color.R, a.Color.G, a.Color.B)
	case 2:
		a.Color = &types.Color{Space: types.ColorSpaceCMYK, C: f(), M: f(), Y: f(), K: f()}
		d["C"] = p.nums(a.Color.C, a.Color.M, a.Color.Y, a.Color.K)
	case 3:
		d["C"] = pdfx.Arr{}
	default:
		p.put(d, "C", nil)
	}
	switch r.Intn(4) {
	case 0:
		a.Border = &types.Border{Width: float64(r.Intn(20)) / 4}
		d["Border"] = p.nums(0, 1, a.Border.Width)
	case 1:
		a.Border = &types.Border{Width: float64(r.Intn(20)) / 4, Dash: []float64{3, 1.5}}
		d["Border"] = p.maybe(pdfx.Arr{0, 0, p.maybe(pdfx.Real(a.Border.Width)), p.nums(3, 1.5)})
	default:
		p.put(d, "Border", nil)
	}
	sub := ""
	switch kind {
	case "link":
		sub, a.Type = "Link", types.AnnotationTypeLink
		uri := []string{"http://example.org/a(b)c", "https://x.y/?q=1&r=(", "mailto:a@b.c", "http://x/\\y)", "http://e.org/%20#f", "file:///R"}[r.Intn(6)]
		var dest pdfx.Val
		var text string
		switch r.Intn(3) {
		case 0:
			n := []string{"Chap1", "a.b", "G 1", "x#y", "(z"}[r.Intn(5)]
			dest, text = pdfx.Name(n), "/"+n
		case 1:
			text = randText(r)
			dest = textStr(r, text)
		default:
			dest = pdfx.Arr{pages[r.Intn(len(pages))], pdfx.Name("XYZ"), 10, pdfx.Real(20.5), pdfx.Null{}}
			text = string(pdfx.Write(dest))
		}
		switch r.Intn(4) {
		case 0:
			a.URI = uri
			d["A"] = p.maybe(pdfx.Dict{"Type": pdfx.Name("Action"), "S": p.maybe(pdfx.Name("URI")), "URI": p.maybe(pdfx.Str(uri))})
			p.put(d, "Dest", nil)
		case 1:
			a.Destination = text
			d["A"] = p.maybe(pdfx.Dict{"S": p.maybe(pdfx.Name("GoTo")), "D": p.maybe(dest)})
		case 2:
			a.Destination = text
			d["Dest"] = p.maybe(dest)
			p.put(d, "A", nil)
		default:
			d["A"] = pdfx.Dict{"S": pdfx.Name("Named"), "N": pdfx.Name("NextPage")}
		}
	case "text":
		sub, a.Type = "Text", types.AnnotationTypeText
		if r.Intn(2) == 0 {
			a.Open = r.Intn(2) == 0
			d["Open"] = p.maybe(a.Open)
		}
		if r.Intn(2) == 0 {
			n := []string{"Comment", "Key", "New Paragraph"}[r.Intn(3)]
			a.Icon, d["Name"] = "/"+n, p.maybe(pdfx.Name(n))
		}
	case "mark":
		k := r.Intn(4)
		sub = []string{"Highlight", "Underline", "StrikeOut", "Squiggly"}[k]
		a.Type = []types.AnnotationType{types.AnnotationTypeHighlight, types.AnnotationTypeUnderline, types.AnnotationTypeStrikeout, types.AnnotationTypeSquiggly}[k]
		var q []float64
		for i := 4 * (1 + r.Intn(3)); i > 0; i-- {
			x, y := float64(r.Intn(600)), float64(r.Intn(3000))/4
			q = append(q, x, y)
			a.QuadPoints = append(a.QuadPoints, types.Point{X: x, Y: y})
		}
		d["QuadPoints"] = p.nums(q...)
	case "shape":
		ks := []struct {
			s string
			t types.AnnotationType
		}{{"Circle", types.AnnotationTypeCircle}, {"Square", types.AnnotationTypeSquare}, {"Line", types.AnnotationTypeLine}, {"Polygon", types.AnnotationTypePolygon}, {"PolyLine", types.AnnotationTypePolyline},
			{"Ink", types.AnnotationTypeInk}, {"Stamp", types.AnnotationTypeStamp}, {"Caret", types.AnnotationTypeCaret}, {"FreeText", types.AnnotationTypeFreeText}, {"Popup", types.AnnotationTypePopup},
			{"Widget", "Widget"}, {"FileAttachment", "FileAttachment"}, {"Custom Note", "Custom Note"}}
		k := ks[r.Intn(len(ks))]
		sub, a.Type = k.s, k.t
	case "nosubtype":
		p.put(d, "Subtype", nil)
		if r.Intn(2) == 0 {
			return p.d.add(d), nil
		}
		return d, nil
	default:
		panic("harness: note " + kind)
	}
	d["Subtype"] = p.maybe(pdfx.Name(sub))
	if r.Intn(3) == 0 {
		return d, a
	}
	ref := p.d.add(d)
	a.ID = fmt.Sprint(ref.N)
	return ref, a
}

func pfTables(d *genDoc, r *rand.Rand) {
	if r.Intn(3) == 0 {
		for i := 0; i < 300; i++ {
			if r.Intn(5) == 0 {
				d.gens[i] = 1 + r.Intn(3)
			}
		}
	}
}

func pageFactsReplay(t *T) {
	var c pfTrace
	t.JSON(&c)
	r := t.R
	t.Steps = len(c.Nodes)
	d := &genDoc{num: map[int]int{}, objs: map[int]pdfx.Val{}, gens: map[int]int{}, nums: newNumberer(r, 250), loose: true}
	pfTables(d, r)
	p := &pfDoc{r: r, d: d, boxes: map[string][4]float64{}, turns: map[int]int{}, objs: map[pfEntry]pdfx.Ref{}, fonts: map[int]types.FontInfo{}, family: map[int]bool{},
		images: map[int]types.Image{}, raw: map[int]bool{}, notes: map[int][]types.Annotation{}, shared: map[int]pdfx.Val{}}
	for _, n := range c.Nodes {
		for a := range n.Own {
			for v := 1; v <= len(c.Res); v++ {
				if k := fmt.Sprint(a, v); p.boxes[k] == [4]float64{} {
					p.boxes[k] = p.newBox()
				}
			}
		}
	}
	for v := 1; v <= len(c.Res); v++ {
		p.turns[v] = 90 * (r.Intn(13) - 6)
	}
	for _, table := range c.Res {
		for _, e := range table {
			k := pfEntry{Cat: e.Cat, Obj: e.Obj}
			if _, ok := p.objs[k]; ok {
				continue
			}
			switch e.Cat {
			case "font":
				p.objs[k] = p.font(e.Obj)
			case "image":
				p.objs[k] = p.image(e.Obj)
			default:
				p.objs[k] = d.add(&pdfx.Stream{D: pdfx.Dict{"Type": pdfx.Name("XObject"), "Subtype": p.maybe(pdfx.Name("Form")), "BBox": pdfx.Arr{0, 0, 1, 1}}, Raw: []byte("0 0 1 1 re f")})
			}
		}
	}
	ref := map[int]pdfx.Ref{}
	up := map[int]int{}
	var pages []pdfx.Ref
	for _, n := range c.Nodes {
		ref[n.ID] = d.reserve(r)
		for _, k := range n.Kids {
			up[k] = n.ID
		}
	}
	for _, n := range c.Read {
		pages = append(pages, ref[n.ID])
	}
	count := map[int]int{}
	for _, n := range c.Read {
		for k := n.ID; k != 0; {
			k = up[k]
			count[k]++
		}
	}
	for _, n := range c.Nodes {
		v := pdfx.Dict{"Type": pdfx.Name("Pages")}
		if n.ID != 0 {
			v["Parent"] = ref[up[n.ID]]
		}
		for _, a := range sortedNames(n.Own) {
			p.attr(v, a, n.Own[a], c.Res)
		}
		if n.Group {
			a := pdfx.Arr{}
			for _, k := range n.Kids {
				a = append(a, ref[k])
			}
			v["Kids"], v["Count"] = p.maybe(a), p.maybe(count[n.ID])
			if r.Intn(4) == 0 { // what only pages have
				v["Annots"] = pdfx.Arr{pdfx.Dict{"Type": pdfx.Name("Annot"), "Subtype": pdfx.Name("Text"), "Rect": pdfx.Arr{0, 0, 1, 1}, "Contents": pdfx.Str("no page's")}}
				v["Contents"] = d.add(&pdfx.Stream{D: pdfx.Dict{}, Raw: []byte("BT (no page's) Tj ET")})
			}
		} else {
			v["Type"] = p.maybe(pdfx.Name("Page"))
			a := pdfx.Arr{}
			for _, k := range n.Notes {
				x, want := p.note(k, pages)
				a = append(a, x)
				if want != nil {
					p.notes[n.ID] = append(p.notes[n.ID], *want)
				}
			}
			if len(a) > 0 || r.Intn(2) == 0 {
				v["Annots"] = p.maybe(a)
			} else {
				p.put(v, "Annots", nil)
			}
			if r.Intn(2) == 0 {
				v["Contents"] = p.maybe(d.add(&pdfx.Stream{D: pdfx.Dict{}, Raw: []byte("BT /F1 9 Tf 10 20 Td (Text \xe4\xf6\xfc) Tj ET")}))
			} else {
				p.put(v, "Contents", nil)
			}
		}
		d.set(ref[n.ID].N, v)
	}
	cat := pdfx.Dict{"Type": pdfx.Name("Catalog"), "Pages": ref[0]}
	form := false
	switch r.Intn(4) {
	case 0:
		form = true
		cat["AcroForm"] = p.maybe(pdfx.Dict{"Fields": p.maybe(pdfx.Arr{d.add(pdfx.Dict{"FT": pdfx.Name("Tx"), "T": pdfx.Str("f")})})})
	case 1:
		cat["AcroForm"] = p.maybe(pdfx.Dict{"Fields": p.maybe(pdfx.Arr{})})
	default:
		p.put(cat, "AcroForm", nil)
	}
	d.root = d.add(cat)
	if r.Intn(3) == 0 {
		d.pw = []byte([]string{"", "secret"}[r.Intn(2)])
		d.crypt = newCrypt(r, handlerCfg(r, []string{"R2", "R3v1", "R3", "R4rc4", "R4aes", "R5", "R6"}[r.Intn(7)]), d.pw, []byte("owner"))
	}
	src := d.serialise(r)
	p.check(t, &c, src, form)
}

func sortedNames(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func pfSameBox(g *types.Rectangle, w *[4]float64) bool {
	if g == nil || w == nil {
		return g == nil && w == nil
	}
	for i, x := range []float64{g.LowerX, g.LowerY, g.UpperX, g.UpperY} {
		if math.Abs(x-w[i]) > 1e-6 {
			return false
		}
	}
	return true
}

func pfBox(b *types.Rectangle) string {
	if b == nil {
		return "none"
	}
	return fmt.Sprint(*b)
}

func pfSameVal(got, want string) bool {
	if got == "" || want == "" {
		return got == want
	}
	g, err1 := pdfx.Parse([]byte(got))
	w, err2 := pdfx.Parse([]byte(want))
	return err1 == nil && err2 == nil && pdfx.Canon(g) == pdfx.Canon(w)
}

func (p *pfDoc) sameFont(g types.FontInfo, e pfEntry) bool {
	w := p.fonts[e.Obj]
	w.ID = "/" + e.Name
	if !p.family[e.Obj] {
		g.Family = ""
	}
	return g == w
}

func (p *pfDoc) sameImage(g types.Image, e pfEntry, data bool) string {
	w := p.images[e.Obj]
	if g.ID != "/"+e.Name || g.Width != w.Width || g.Height != w.Height {
		return fmt.Sprintf("%s %dx%d, should be /%s %dx%d", g.ID, g.Width, g.Height, e.Name, w.Width, w.Height)
	}
	if !data {
		return ""
	}
	if g.BitsPerComponent != w.BitsPerComponent || !pfSameVal(g.ColorSpace, w.ColorSpace) || !pfSameVal(g.Filter, w.Filter) || (!p.raw[e.Obj] && g.Format != w.Format) {
		return fmt.Sprintf("%s: %d bits, %s, %s, %s; should be %d bits, %s, %s, %s", g.ID, g.BitsPerComponent, g.ColorSpace, g.Filter, g.Format, w.BitsPerComponent, w.ColorSpace, w.Filter, w.Format)
	}
	if !bytes.Equal(g.Data, w.Data) {
		return fmt.Sprintf("%s (%s): data %.60x, should be %.60x", g.ID, w.Filter, g.Data, w.Data)
	}
	if b, err := base64.StdEncoding.DecodeString(g.DataBase64); err != nil || !bytes.Equal(b, w.Data) {
		return g.ID + ": base64 is not the data"
	}
	return ""
}

func (p *pfDoc) check(t *T, c *pfTrace, src []byte, form bool) {
	pw := p.d.pw
	doc, err := extract.ExtractContent(src, pw, false)
	if err != nil {
		t.FailBlob("error", src, "ExtractContent: %v", err)
		return
	}
	if pdf, err := parse.OpenWithOptions(src, parse.ParseOptions{Password: pw}); err != nil {
		t.FailBlob("error", src, "OpenWithOptions: %v", err)
	} else if pages, err := extract.ExtractPages(src, pdf, false); err != nil || !(len(pages) == 0 && len(doc.Pages) == 0 || reflect.DeepEqual(pages, doc.Pages)) {
		t.FailBlob("pages", src, "ExtractPages and ExtractContent differ (%v)", err)
	}
	if len(doc.Pages) != len(c.Read) {
		t.FailBlob("pages", src, "%d pages, should be %d", len(doc.Pages), len(c.Read))
		return
	}
	var all []types.Annotation
	for i := range doc.Pages {
		g, w := &doc.Pages[i], &c.Read[i]
		at := fmt.Sprintf("page %d", i+1)
		if g.PageNumber != i+1 {
			t.FailBlob("number", src, "%s has number %d", at, g.PageNumber)
		}
		for a, b := range map[string]*types.Rectangle{"MediaBox": g.MediaBox, "CropBox": g.CropBox, "BleedBox": g.BleedBox, "TrimBox": g.TrimBox, "ArtBox": g.ArtBox} {
			var want *[4]float64
			if v := w.Has[a]; v > 0 {
				x := p.boxes[fmt.Sprint(a, v)]
				want = &x
			}
			if !pfSameBox(b, want) {
				t.FailBlob(a, src, "%s: %s %s, should be %v", at, a, pfBox(b), want)
			}
			if a == "MediaBox" && want != nil && (math.Abs(g.Width-(want[2]-want[0])) > 1e-6 || math.Abs(g.Height-(want[3]-want[1])) > 1e-6) {
				t.FailBlob("size", src, "%s is %v x %v, media box %v", at, g.Width, g.Height, *want)
			}
			t.Count("boxes", 1)
		}
		turn := 0
		if v := w.Has["Rotate"]; v > 0 {
			turn = (p.turns[v]%360 + 360) % 360
		}
		if g.Rotation != turn {
			t.FailBlob("Rotate", src, "%s: rotation %d, should be %d (value %d)", at, g.Rotation, turn, p.turns[w.Has["Rotate"]])
		}
		p.checkResources(t, src, at, g.Resources, w.Has["Resources"], c.Res)
		p.checkNotes(t, src, at, g.Annotations, p.notes[w.ID], i+1)
		all = append(all, g.Annotations...)
	}
	if len(all)+len(doc.Annotations) > 0 && !reflect.DeepEqual(all, doc.Annotations) {
		t.FailBlob("allnotes", src, "the document's annotations are not those of its pages")
	}
	if t.Failed() {
		return
	}
	// resources over the document
	var fonts, images []pfEntry
	for _, e := range c.Used {
		switch e.Cat {
		case "font":
			fonts = append(fonts, e)
		case "image":
			images = append(images, e)
		}
	}
	for _, e := range fonts {
		n := 0
		for _, g := range doc.Fonts {
			if p.sameFont(g, e) {
				n++
			}
		}
		if n != 1 {
			t.FailBlob("fonts", src, "font /%s (object %d) is listed %d times: %v", e.Name, e.Obj, n, doc.Fonts)
		}
	}
	if len(doc.Fonts) != len(fonts) {
		t.FailBlob("fonts", src, "%d fonts are listed, should be %d", len(doc.Fonts), len(fonts))
	}
	p.checkImages(t, src, "Images", doc.Images, images, false)
	if got, err := extract.ExtractAllImages(src, pw, false); err != nil {
		t.FailBlob("error", src, "ExtractAllImages: %v", err)
	} else {
		p.checkImages(t, src, "ExtractAllImages", got, images, true)
	}
	if got, err := extract.ExtractPageImages(src, pw, false); err != nil || len(got) != len(c.Read) {
		t.FailBlob("error", src, "ExtractPageImages: %d pages, %v", len(got), err)
	} else {
		for i, w := range c.Read {
			n := 0
			if v := w.Has["Resources"]; v > 0 {
				for _, e := range c.Res[v-1] {
					if e.Cat != "image" {
						continue
					}
					n++
					if g := got[i]["/"+e.Name]; g == nil {
						t.FailBlob("pageimages", src, "page %d lacks image %s", i+1, e.Name)
					} else if x := p.sameImage(*g, e, true); x != "" {
						t.FailBlob("pageimages", src, "page %d: %s", i+1, x)
					}
				}
			}
			if n != len(got[i]) {
				t.FailBlob("pageimages", src, "page %d has %d images, should have %d", i+1, len(got[i]), n)
			}
		}
	}
	text, err := extract.ExtractContentToJSON(src, pw, false)
	want, err2 := json.Marshal(doc)
	var got bytes.Buffer
	if err == nil {
		err = json.Compact(&got, []byte(text))
	}
	if err != nil || err2 != nil || !bytes.Equal(got.Bytes(), want) {
		t.FailBlob("json", src, "ExtractContentToJSON is not what ExtractContent gives (%v, %v)", err, err2)
	}
	if t.R.Intn(4) == 0 {
		p.checkDirectory(t, src, doc, images, form)
	}
}

func (p *pfDoc) checkResources(t *T, src []byte, at string, g *types.PageResources, v int, res [][]pfEntry) {
	if v == 0 {
		if g != nil && len(g.Fonts)+len(g.Images)+len(g.XObjects) > 0 {
			t.FailBlob("resources", src, "%s has no resources but says %v", at, *g)
		}
		return
	}
	if g == nil {
		t.FailBlob("resources", src, "%s has resources but says none", at)
		return
	}
	fonts, images, xobjs := 0, 0, 0
	for _, e := range res[v-1] {
		t.Count("resources", 1)
		if e.Cat == "font" {
			fonts++
			if f, ok := g.Fonts[e.Name]; !ok || !p.sameFont(f, e) {
				t.FailBlob("font", src, "%s: font %s is %v %+v, should be %+v", at, e.Name, ok, f, p.fonts[e.Obj])
			}
			continue
		}
		xobjs++
		x, ok := g.XObjects[e.Name]
		if !ok || x.ID != "/"+e.Name || x.Subtype != map[string]string{"image": "/Image", "form": "/Form"}[e.Cat] {
			t.FailBlob("xobject", src, "%s: XObject %s (%s) is %v %+v", at, e.Name, e.Cat, ok, x)
		}
		if e.Cat == "image" {
			images++
			if im, ok := g.Images[e.Name]; !ok {
				t.FailBlob("image", src, "%s: image %s is missing", at, e.Name)
			} else if bad := p.sameImage(im, e, false); bad != "" {
				t.FailBlob("image", src, "%s: %s", at, bad)
			}
			if w := p.images[e.Obj]; x.Width != float64(w.Width) || x.Height != float64(w.Height) {
				t.FailBlob("xobject", src, "%s: XObject %s is %v x %v, should be %d x %d", at, e.Name, x.Width, x.Height, w.Width, w.Height)
			}
		}
	}
	if fonts != len(g.Fonts) || images != len(g.Images) || xobjs != len(g.XObjects) {
		t.FailBlob("resources", src, "%s: %d fonts, %d images, %d XObjects; should be %d, %d, %d", at, len(g.Fonts), len(g.Images), len(g.XObjects), fonts, images, xobjs)
	}
}

func (p *pfDoc) checkNotes(t *T, src []byte, at string, got, want []types.Annotation, page int) {
	if len(got) != len(want) {
		t.FailBlob("notes", src, "%s has %d annotations, should have %d", at, len(got), len(want))
		return
	}
	for i := range got {
		g, w := got[i], want[i]
		t.Count("annotations", 1)
		if w.Type == types.AnnotationTypeLink && strings.HasPrefix(w.Destination, "[") && pfSameVal(g.Destination, w.Destination) {
			g.Destination = w.Destination
		}
		w.PageNumber = page
		g.Properties, g.Actions = nil, nil
		if w.Rect != nil && g.Rect != nil && pfSameBox(g.Rect, &[4]float64{w.Rect.LowerX, w.Rect.LowerY, w.Rect.UpperX, w.Rect.UpperY}) {
			g.Rect = w.Rect
		}
		if !reflect.DeepEqual(g, w) {
			gj, _ := json.Marshal(g)
			wj, _ := json.Marshal(w)
			t.FailBlob("note", src, "%s, annotation %d: %s, should be %s", at, i+1, gj, wj)
		}
	}
}

func (p *pfDoc) checkImages(t *T, src []byte, what string, got []types.Image, want []pfEntry, data bool) {
	if len(got) != len(want) {
		t.FailBlob("images", src, "%s lists %d images, should be %d", what, len(got), len(want))
		return
	}
	used := map[int]bool{}
	for _, e := range want {
		ok := false
		bad := ""
		for i, g := range got {
			if used[i] {
				continue
			}
			x := p.sameImage(g, e, data)
			if x == "" {
				ok, used[i] = true, true
				break
			}
			if g.ID == "/"+e.Name {
				bad = x
			}
		}
		if !ok {
			t.FailBlob("images", src, "%s lacks image /%s (object %d): %s", what, e.Name, e.Obj, bad)
		}
		t.Count("images", 1)
	}
}

func (p *pfDoc) checkDirectory(t *T, src []byte, doc *types.ContentDocument, images []pfEntry, form bool) {
	dir, err := os.MkdirTemp(t.C.Out, "dir")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(dir)
	to := filepath.Join(dir, "a", "b")
	out, err := extract.ExtractToDirectory(src, p.d.pw, to, false)
	if err != nil {
		t.FailBlob("error", src, "ExtractToDirectory: %v", err)
		return
	}
	t.Count("directories", 1)
	b, err := os.ReadFile(out.StructureFile)
	var c extract.ExtractedContent
	if err == nil {
		err = json.Unmarshal(b, &c)
	}
	if err != nil {
		t.FailBlob("structure", src, "structure file: %v", err)
		return
	}
	chars, text := 0, false
	for _, g := range doc.Pages {
		for _, x := range g.Text {
			text = true
			chars += utf8.RuneCountInString(x.Text)
		}
	}
	want := extract.ContentSummary{PageCount: len(doc.Pages), TextCharCount: chars, ImageCount: len(images), HasText: text, HasImages: len(images) > 0, HasForms: form,
		HasBookmarks: len(doc.Bookmarks) > 0, IsScannedPDF: len(images) > 0 && !text && len(doc.Pages) > 0}
	said := extract.ContentSummary{PageCount: out.PageCount, TextCharCount: out.TextCharCount, ImageCount: out.ImageCount, HasText: out.HasText, HasImages: out.HasImages, HasForms: out.HasForms,
		HasBookmarks: want.HasBookmarks, IsScannedPDF: out.IsScannedPDF}
	if c.Summary != want || said != want {
		t.FailBlob("summary", src, "summary %+v and %+v, should be %+v", c.Summary, said, want)
	}
	if len(c.Pages) != len(doc.Pages) {
		t.FailBlob("structure", src, "%d pages in the structure file, should be %d", len(c.Pages), len(doc.Pages))
		return
	}
	for i, g := range c.Pages {
		w := doc.Pages[i]
		x := extract.ExtractedPage{PageNumber: w.PageNumber, Width: w.Width, Height: w.Height, Rotation: w.Rotation, MediaBox: w.MediaBox, CropBox: w.CropBox,
			Text: w.Text, Graphics: w.Graphics, Annotations: w.Annotations, Resources: w.Resources, ImageRefs: g.ImageRefs}
		gj, _ := json.Marshal(g)
		wj, _ := json.Marshal(x)
		if !bytes.Equal(gj, wj) {
			t.FailBlob("structure", src, "page %d in the structure file is %.600s, should be %.600s", i+1, gj, wj)
		}
	}
	var got []types.Image
	files := map[string]bool{}
	for _, ref := range c.Images {
		b, err := os.ReadFile(filepath.Join(to, ref.Filename))
		if err != nil || files[ref.Filename] || ref.Size != len(b) || !filepath.IsLocal(ref.Filename) {
			t.FailBlob("files", src, "image file %s (size %d, %d bytes there): %v", ref.Filename, ref.Size, len(b), err)
		}
		files[ref.Filename] = true
		got = append(got, types.Image{ID: ref.ID, Width: ref.Width, Height: ref.Height, Format: ref.Format, ColorSpace: ref.ColorSpace, Filter: ref.Filter, Data: b, DataBase64: base64.StdEncoding.EncodeToString(b)})
	}
	for i := range got { // not in the file, or not text
		for _, e := range images {
			if w := p.images[e.Obj]; got[i].ID == "/"+e.Name && bytes.Equal(got[i].Data, w.Data) {
				got[i].BitsPerComponent = w.BitsPerComponent
				if strings.Contains(w.ColorSpace, "Indexed") {
					got[i].ColorSpace = w.ColorSpace
				}
			}
		}
	}
	p.checkImages(t, src, "the structure file", got, images, true)
	if len(out.ImageFiles) != len(files) {
		t.FailBlob("files", src, "%d image files, %d in the structure file", len(out.ImageFiles), len(files))
	}
	for _, f := range out.ImageFiles {
		if rel, err := filepath.Rel(to, f); err != nil || !files[filepath.ToSlash(rel)] {
			t.FailBlob("files", src, "image file %s is not in the structure file", f)
		}
	}
}
