package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/benedoc-inc/pdfer/content/extract"
	"github.com/benedoc-inc/pdfer/core/encrypt"
	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/core/syntax"
	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/forms/xfa"
	"github.com/benedoc-inc/pdfer/resources/font"
	"github.com/benedoc-inc/pdfer/types"
	"verif/harness/pdfx"
)

// robFormat damages data of one of the formats read outside documents.
func robFormat(t *T, c *robChild, d robDamage) {
	r := t.R
	x := &robRun{t: t, c: c}
	var data []byte
	f := func() {}
	str := func() string { return string(x.data) }
	switch d.Piece {
	case "ttf":
		ft := &pbFont{}
		pbTTF(r, ft, []rune("Hello wörld, €"))
		data = ft.data
		f = func() {
			font.ParseTTF(x.data)
			if l, err := font.NewFont("N", x.data); err == nil {
				l.AddString("Hello wörld, € 漢😀")
				l.GetSubsetGlyphs()
				l.GetWidths()
				l.CreateSubsetFont()
				b := write.NewSimplePDFBuilder()
				pg := b.AddPage(write.PageSize{Width: 100, Height: 100})
				if n, err := pg.AddEmbeddedFont(l); err == nil {
					pg.Content().BeginText().SetFont(n, 12).ShowText("Hello").EndText()
				}
				b.FinalizePage(pg)
				b.Bytes()
			}
		}
	case "jpeg", "png":
		for k := 0; k < 60; k++ {
			if o := pbNewImage(r); o.jpeg == (d.Piece == "jpeg") {
				data = o.data
				break
			}
		}
		f = func() {
			w := write.NewPDFWriter()
			w.AddImage(x.data, "a")
			w.AddJPEGImage(x.data, "b")
			w.Bytes()
			parse.DecodeDCTDecode(x.data)
			parse.EncodeDCTDecode(x.data)
		}
	case "dct":
		data = make([]byte, 48)
		r.Read(data)
		f = func() { parse.EncodeDCTDecode(x.data); parse.DecodeFilter(x.data, "/DCTDecode") }
	case "cmap":
		code := map[string][]byte{}
		for i, s := range []string{"A", "é", "漢", "😀", "ffi"} {
			code[s] = []byte{byte(i), byte(i * 40)}
		}
		data = cmapFor(r, code, 2)
		f = func() {
			fd := extract.NewFontDecoder("F")
			fd.ParseToUnicodeCMap(str())
			fd.Decode(x.data)
			fd.DecodeHex(str())
		}
	case "differences":
		data = []byte("[32 /space /A 200 /Euro /uni20AC /u1F600 /g23 255 /ydieresis]")
		f = func() {
			fd := extract.NewFontDecoder("F")
			fd.SetBaseEncoding("/" + []string{"WinAnsiEncoding", "MacRomanEncoding", "StandardEncoding", "Nope"}[r.Intn(4)])
			fd.ParseDifferencesArray(str())
			fd.Decode(x.data)
			fd.SetDifferences(-1, "A")
			fd.SetDifferences(1000, str())
			fd.SetToUnicode(-5, 'x')
		}
	case "flate", "hex", "a85", "runlength", "predictor":
		plain := make([]byte, 200)
		r.Read(plain)
		dict := pdfx.Dict{}
		name := map[string]string{"flate": "FlateDecode", "hex": "ASCIIHexDecode", "a85": "ASCII85Decode", "runlength": "RunLengthDecode", "predictor": "FlateDecode"}[d.Piece]
		dict["Filter"] = pdfx.Name(name)
		switch d.Piece {
		case "flate":
			data = pdfx.Deflate(plain)
		case "hex":
			data = pdfx.HexEnc(plain, "plain", r)
		case "a85":
			data = pdfx.A85Enc(plain, "plain", r)
		case "runlength":
			data = pdfx.RLEnc(bytes.Repeat(plain[:20], 10), "plain", r)
		case "predictor":
			n := func() pdfx.Val {
				return []pdfx.Val{1, 3, 10, 0, -1, 2, 15, 12, 2147483647, 1000000, pdfx.Raw("99999999999999999999"), pdfx.Raw("1.5"), pdfx.Null{}, pdfx.Ref{N: 4}}[r.Intn(14)]
			}
			dict["DecodeParms"] = pdfx.Dict{"Predictor": n(), "Columns": n(), "Colors": n(), "BitsPerComponent": n()}
			data = pdfx.Deflate(plain)
			if r.Intn(2) == 0 {
				d.How = "shift" // (the parameters are the damage)
			}
		}
		x.data = data
		f = func() {
			for _, n := range []string{name, "/" + name} {
				parse.DecodeFilter(x.data, n)
			}
			parse.DecodeFlateDecode(x.data)
			parse.DecodeASCIIHex(x.data)
			parse.DecodeASCII85(x.data)
			parse.DecodeRunLength(x.data)
			parse.DecodeStream(dictText(dict), x.data, nil)
			parse.DecodeStream(dictText(dict), data, func(int) []byte { return []byte("7") })
			xfa.DecompressStream(x.data)
		}
	case "value", "token", "content":
		g := newRobDoc(r, 1, false)
		var parts []string
		for _, n := range g.order {
			if r.Intn(4) == 0 {
				if st, ok := g.objs[n].(*pdfx.Stream); ok {
					parts = append(parts, fmt.Sprintf("%d 0 obj\n%s\nstream\n%s\nendstream\nendobj\n", n, pdfx.Write(st.D), st.Raw))
				} else {
					parts = append(parts, string(pdfx.Write(g.objs[n])))
				}
			}
		}
		parts = append(parts, "<</A[1 2(x)]>>")
		data = []byte(parts[r.Intn(len(parts))])
		f = func() {
			b := x.data
			i := r.Intn(len(b)+3) - 1
			if i >= 0 && i <= len(b) {
				syntax.SkipSpace(b, i)
				syntax.Token(b, i)
				syntax.ValueEnd(b, i)
			}
			syntax.Body(b)
			syntax.IsStream(b)
			syntax.Stream(b)
			syntax.Entries(b)
			syntax.Get(b, "Type")
			syntax.Set(b, "New", []byte("1"))
			syntax.Delete(b, "Type")
			syntax.Array(b)
			syntax.Ref(b)
			syntax.Int(b)
			syntax.Name(b)
			syntax.String(b)
			syntax.TextString(b)
			syntax.DecodeText(b)
			syntax.MapRefs(b, func(n, g int) string { return "1 0 R" })
			syntax.MapStrings(b, func(s []byte) string { return "(x)" })
			syntax.Refs(b)
			syntax.FormatString(b)
			syntax.EscapeString(b)
		}
	case "xfaform", "xfadata", "xfaconfig", "xfaconnection", "xfalocale", "xfastyle", "xfafields":
		packet := map[string]string{"xfaform": "template", "xfadata": "datasets", "xfaconfig": "config", "xfaconnection": "connectionSet", "xfalocale": "localeSet", "xfastyle": "stylesheet", "xfafields": "datasets"}[d.Piece]
		data = []byte(robXML(r, packet))
		f = func() {
			s := str()
			switch d.Piece {
			case "xfaform":
				if v, err := xfa.ParseXFAForm(s, false); err == nil {
					xfa.FormToXFA(v, false)
				}
			case "xfadata":
				if v, err := xfa.ParseXFADatasets(s, false); err == nil {
					xfa.DatasetsToXFA(v, false)
				}
			case "xfaconfig":
				if v, err := xfa.ParseXFAConfig(s, false); err == nil {
					xfa.ConfigToXFA(v, false)
				}
			case "xfaconnection":
				if v, err := xfa.ParseXFAConnectionSet(s, false); err == nil {
					xfa.ConnectionSetToXFA(v, false)
				}
			case "xfalocale":
				if v, err := xfa.ParseXFALocaleSet(s, false); err == nil {
					xfa.LocaleSetToXFA(v, false)
				}
			case "xfastyle":
				if v, err := xfa.ParseXFAStylesheet(s, false); err == nil {
					xfa.StylesheetToXFA(v, false)
				}
			default:
				parse.ParseXFAFields(s, false)
				xfa.UpdateXFAValues(s, types.FormData{"f1": "new", "nope": 1}, false)
				xfa.UpdateXFAFieldValues(s, types.FormData{"f2": "n<>&"}, false)
			}
		}
	case "encrypt":
		n := 64
		data = make([]byte, n)
		r.Read(data)
		f = func() {
			b := x.data
			cut := func() []byte { return b[:r.Intn(len(b)+1)] }
			for k := 0; k < 6; k++ {
				e := &types.PDFEncryption{Filter: "Standard", V: r.Intn(7), R: r.Intn(8), KeyLength: []int{0, 5, 16, 32, 40, 128, 256, -1, 1000000}[r.Intn(9)],
					O: cut(), U: cut(), UE: cut(), OE: cut(), P: -4, EncryptKey: cut(), StreamMethod: []string{"", "V2", "AESV2", "AESV3", "None", "X"}[r.Intn(6)]}
				e.StringMethod = e.StreamMethod
				if len(e.EncryptKey) > 40 { // hashed for every string
					e.EncryptKey = e.EncryptKey[:40]
				}
				encrypt.AuthenticateV5(cut(), e)
				encrypt.HashV5(cut(), cut(), cut(), e.R)
				encrypt.UnwrapKeyV5(cut(), cut())
				encrypt.WrapKeyV5(cut(), cut())
				encrypt.DeriveEncryptionKey(cut(), e, cut(), false)
				encrypt.ComputeUValue(cut(), e, cut(), false)
				encrypt.DeriveOwnerKey(cut(), e, cut(), false)
				encrypt.DeriveUserKeyFromOwner(cut(), e, false)
				encrypt.DeriveEncryptionKeyV5(cut(), e, cut(), false)
				encrypt.UnwrapUserKeyV5(cut(), e, false)
				encrypt.UnwrapOwnerKeyV5(cut(), e, false)
				encrypt.DeriveOwnerKeyV5(cut(), e, cut(), false)
				encrypt.ComputeUValueV5(cut(), cut(), e, cut(), false)
				encrypt.VerifyUValueV5(cut(), cut(), e, cut(), false)
				encrypt.DecryptObject(cut(), r.Intn(5), 0, e)
				encrypt.DecryptStream(cut(), nil, 3, 0, e)
				encrypt.EncryptStream(cut(), []byte("<</Type/XRef>>"), 3, 0, e)
				encrypt.DecryptStrings(append([]byte("<</A("), append(cut(), ")>>"...)...), 3, 0, e)
				encrypt.EncryptStrings(append([]byte("<</A("), append(cut(), ")>>"...)...), 3, 0, e)
			}
		}
	case "trailer", "xref":
		g := newRobDoc(r, 1, r.Intn(2) == 0)
		data = g.serialise(r)
		if i := len(data) - 100 - r.Intn(len(data)/2); i > 0 && r.Intn(2) == 0 {
			data = data[i:]
		}
		f = func() {
			encrypt.ParseEncryptionDictionary(x.data, false)
			encrypt.ExtractFileID(x.data, false)
			parse.ParsePDFTrailer(x.data)
			parse.FindAllEOFMarkers(x.data)
			parse.CountRevisions(x.data)
			for i := 0; i < 3; i++ {
				at := int64(bytes.LastIndex(x.data, []byte("xref")))
				if i > 0 {
					at = int64(r.Intn(len(x.data) + 1))
				}
				parse.ParseCrossReferenceTable(x.data, at)
				parse.ParseXRefStream(x.data, at)
				parse.ParseXRefStreamFull(x.data, at, false)
				parse.ParseTraditionalXRefTable(x.data, at)
			}
		}
	}
	x.data = data
	for k := 1 + r.Intn(2); k > 0; k-- {
		x.data = robBytes(d.How, r, x.data)
	}
	x.do(d.Piece, f)
	t.Count("damage: "+d.Piece, 1)
}

// robShape makes documents whose shape is the difficulty: structures that
// refer to themselves, that are very deep, or that unfold to very many paths.
func robShape(t *T, c *robChild, s robDamage) {
	r := t.R
	d := newRobDoc(r, 2, r.Intn(4) == 0)
	clean := d.serialise(r)
	N := func(s string) pdfx.Name { return pdfx.Name(s) }
	cat := d.objs[d.root.N].(pdfx.Dict)
	first := func(piece string) (int, pdfx.Val) {
		for _, n := range d.order {
			if d.piece[n] == piece {
				return n, d.objs[n]
			}
		}
		panic("harness: no " + piece)
	}
	of := func(piece, key string) (int, pdfx.Dict) { // the object of a piece that has a key
		for _, n := range d.order {
			if d.piece[n] != piece {
				continue
			}
			switch v := d.objs[n].(type) {
			case pdfx.Dict:
				if v[key] != nil {
					return n, v
				}
			case *pdfx.Stream:
				if v.D[key] != nil {
					return n, v.D
				}
			}
		}
		panic("harness: no " + piece + " with " + key)
	}
	big := []int{100, 3000, 20000}[s.Site%3]
	pg := func() pdfx.Ref { n, _ := first("page1"); return pdfx.Ref{N: n, G: d.gens[n]} }
	d.cur = "page1"
	ref := func(n int) pdfx.Ref { return pdfx.Ref{N: n, G: d.gens[n]} }
	xobj := func(name string, v pdfx.Val) { // into page 1's resources
		_, page := of("page1", "Resources")
		page["Resources"] = pdfx.Dict{"XObject": pdfx.Dict{name: v}, "Font": pdfx.Dict{"F1": pdfx.Dict{"Type": N("Font"), "Subtype": N("Type1"), "BaseFont": N("Helvetica")}}}
		page["Contents"] = d.put(&pdfx.Stream{D: pdfx.Dict{}, Raw: []byte("BT /F1 12 Tf (x) Tj ET /" + name + " Do /" + name + " Do")})
	}
	form := func(res pdfx.Val, content string) *pdfx.Stream {
		x := pdfx.Dict{"Type": N("XObject"), "Subtype": N("Form"), "BBox": pdfx.Arr{0, 0, 9, 9}}
		if res != nil {
			x["Resources"] = res
		}
		return &pdfx.Stream{D: x, Raw: []byte(content)}
	}
	wantPages := -1
	var post func(b []byte) []byte
	switch s.How {
	case "pagedeep":
		v := pg()
		for i := 0; i < big; i++ {
			v = d.put(pdfx.Dict{"Type": N("Pages"), "Kids": pdfx.Arr{v}, "Count": 1})
		}
		cat["Pages"] = v
	case "pagefan":
		v := pg()
		for i := 0; i < 40; i++ {
			v = d.put(pdfx.Dict{"Type": N("Pages"), "Kids": pdfx.Arr{v, v}, "Count": 2})
		}
		cat["Pages"] = v
	case "pagering":
		a, b := d.put(nil), d.put(nil)
		d.set(a.N, pdfx.Dict{"Type": N("Pages"), "Kids": pdfx.Arr{b, pg(), a}, "Count": 3, "Parent": b})
		d.set(b.N, pdfx.Dict{"Type": N("Pages"), "Kids": pdfx.Arr{a, a, cat["Pages"]}, "Count": 3, "Parent": a})
		cat["Pages"] = a
	case "inheritring":
		a := d.put(nil)
		d.set(a.N, pdfx.Dict{"Type": N("Pages"), "Parent": a, "Kids": pdfx.Arr{}, "Count": 0})
		_, page := of("page1", "Parent")
		page["Parent"] = a
		delete(page, "MediaBox")
		delete(page, "Resources")
	case "manypages", "widekids":
		wantPages = big / 4
		a := pdfx.Arr{}
		for i := 0; i < wantPages; i++ {
			p := pdfx.Dict{"Type": N("Page"), "Parent": cat["Pages"], "MediaBox": pdfx.Arr{0, 0, 9, 9}}
			if s.How == "manypages" {
				a = append(a, d.put(p))
			} else {
				a = append(a, pg(), pdfx.Null{}, pdfx.Ref{N: 99999})
			}
		}
		if s.How == "widekids" {
			wantPages = -1
		}
		for _, n := range d.order {
			if v, ok := d.objs[n].(pdfx.Dict); ok && n == cat["Pages"].(pdfx.Ref).N {
				v["Kids"], v["Count"] = a, len(a)
			}
		}
	case "formfan":
		v := d.put(form(nil, "0 0 1 1 re f BT /F1 1 Tf (x) Tj ET"))
		for i := 0; i < 40; i++ {
			v = d.put(form(pdfx.Dict{"XObject": pdfx.Dict{"A": v, "B": v}}, "/A Do 1 0 0 1 2 2 cm /B Do"))
		}
		xobj("Fx", v)
	case "formdeep":
		v := d.put(form(nil, "0 0 1 1 re f"))
		for i := 0; i < big; i++ {
			v = d.put(form(pdfx.Dict{"XObject": pdfx.Dict{"A": v}}, "/A Do"))
		}
		xobj("Fx", v)
	case "formring":
		a, b := d.put(nil), d.put(nil)
		d.set(a.N, form(pdfx.Dict{"XObject": pdfx.Dict{"B": b, "A": a}}, "/B Do /A Do /B Do"))
		d.set(b.N, form(pdfx.Dict{"XObject": pdfx.Dict{"A": a, "B": b}}, "/A Do /B Do /A Do"))
		xobj("Fx", a)
	case "fielddeep", "fieldfan", "fieldring":
		_, af := of("form", "Fields")
		v := d.put(pdfx.Dict{"T": pdfx.Str("leaf"), "FT": N("Tx")})
		switch s.How {
		case "fielddeep":
			if big > 3000 {
				big = 8000 // (the names alone grow with the square of the depth)
			}
			for i := 0; i < big; i++ {
				v = d.put(pdfx.Dict{"T": pdfx.Str("f"), "Kids": pdfx.Arr{v}})
			}
		case "fieldfan":
			for i := 0; i < 40; i++ {
				v = d.put(pdfx.Dict{"T": pdfx.Str(fmt.Sprint("f", i)), "Kids": pdfx.Arr{v, v}})
			}
		default:
			w := d.put(nil)
			d.set(w.N, pdfx.Dict{"T": pdfx.Str("w"), "Kids": pdfx.Arr{v, w}, "Parent": w})
			d.set(v.N, pdfx.Dict{"T": pdfx.Str("v"), "FT": N("Tx"), "Kids": pdfx.Arr{w, v}, "Parent": w})
		}
		af["Fields"] = pdfx.Arr{v, v}
	case "itemdeep", "itemring":
		_, ol := of("outline", "First")
		v := d.put(pdfx.Dict{"Title": pdfx.Str("leaf"), "Dest": pdfx.Arr{pg(), N("Fit")}})
		if s.How == "itemdeep" {
			for i := 0; i < big; i++ {
				v = d.put(pdfx.Dict{"Title": pdfx.Str("x"), []string{"First", "Next"}[i%2]: v})
			}
		} else {
			w := d.put(pdfx.Dict{"Title": pdfx.Str("w"), "First": v, "Next": v, "Parent": v})
			d.set(v.N, pdfx.Dict{"Title": pdfx.Str("v"), "First": w, "Next": v, "Last": w, "Prev": w})
		}
		ol["First"] = v
	case "namedeep", "namering":
		v := d.put(pdfx.Dict{"Names": pdfx.Arr{pdfx.Str("d1"), pdfx.Arr{pg(), N("Fit")}}, "Limits": pdfx.Arr{pdfx.Str("d1"), pdfx.Str("d1")}})
		if s.How == "namedeep" {
			for i := 0; i < big; i++ {
				v = d.put(pdfx.Dict{"Kids": pdfx.Arr{v}, "Limits": pdfx.Arr{pdfx.Str("a"), pdfx.Str("z")}})
			}
		} else {
			w := d.put(nil)
			d.set(w.N, pdfx.Dict{"Kids": pdfx.Arr{w, v, w}})
			d.set(v.N, pdfx.Dict{"Kids": pdfx.Arr{w, v, w}})
		}
		cat["Names"] = pdfx.Dict{"Dests": v}
	case "lengthring":
		a := d.put(nil)
		x := pdfx.Dict{"Length": a}
		d.set(a.N, &pdfx.Stream{D: x, Raw: []byte("0 0 1 1 re f")})
		_, page := of("page1", "Contents")
		page["Contents"] = pdfx.Arr{a, a}
		d.mangle = func(st *pdfx.Stream) {
			if r.Intn(2) == 0 {
				st.D["Length"] = a
			}
		}
		post = func(b []byte) []byte { // (the builder gives streams their length)
			i := bytes.Index(b, []byte(fmt.Sprintf("\n%d %d obj", a.N, a.G)))
			if i < 0 {
				return b
			}
			j := bytes.Index(b[i:], []byte("/Length "))
			if j < 0 {
				return b
			}
			k := i + j + 8
			e := k
			for b[e] >= '0' && b[e] <= '9' {
				e++
			}
			return append(append(append([]byte(nil), b[:k]...), fmt.Sprintf("%d %d R", a.N, a.G)...), b[e:]...)
		}
	case "refring":
		a, b := d.put(nil), d.put(nil)
		d.set(a.N, b)
		d.set(b.N, a)
		_, page := of("page1", "Contents")
		for _, k := range []string{"Contents", "Resources", "MediaBox", "Rotate", "Annots", "CropBox"} {
			page[k] = a
		}
		for _, k := range []string{"Outlines", "Names", "AcroForm", "Metadata", "Version", "Dests"} {
			if r.Intn(2) == 0 {
				cat[k] = a
			}
		}
		if r.Intn(4) == 0 {
			cat["Pages"] = a
		}
		d.info = &a
	case "contentring":
		a := d.put(nil)
		d.set(a.N, pdfx.Arr{a, pdfx.Arr{a}, a})
		_, page := of("page1", "Contents")
		page["Contents"] = a
		page["Annots"] = a
	case "colorring":
		a := d.put(nil)
		d.set(a.N, pdfx.Arr{N("Indexed"), a, 255, a})
		xobj("Im", d.put(&pdfx.Stream{D: pdfx.Dict{"Subtype": N("Image"), "Width": 2, "Height": 2, "BitsPerComponent": 8, "ColorSpace": a, "Filter": a, "DecodeParms": a}, Raw: []byte("abcd")}))
	case "maskring":
		a := d.put(nil)
		d.set(a.N, &pdfx.Stream{D: pdfx.Dict{"Subtype": N("Image"), "Width": 2, "Height": 2, "BitsPerComponent": 8, "ColorSpace": N("DeviceGray"), "SMask": a, "Mask": a, "Alternates": a}, Raw: []byte("abcd")})
		xobj("Im", a)
	case "fontring":
		a := d.put(nil)
		d.set(a.N, pdfx.Dict{"Type": N("Font"), "Subtype": N("Type0"), "BaseFont": a, "Encoding": a, "DescendantFonts": pdfx.Arr{a}, "ToUnicode": a, "FontDescriptor": a, "FontFile2": a, "Widths": a, "Differences": a})
		_, page := of("page1", "Resources")
		page["Resources"] = pdfx.Dict{"Font": pdfx.Dict{"F1": a, "F2": a, "F3": a}}
	case "manyops":
		op := []string{"q Q ", "0 0 m 5 5 l S ", "BT /F1 12 Tf (some text) Tj ET ", "1 0 0 1 0 0 cm ", "/Span BMC EMC "}[r.Intn(5)]
		_, page := of("page1", "Contents")
		page["Contents"] = d.put(&pdfx.Stream{D: pdfx.Dict{}, Raw: []byte(strings.Repeat(op, big))})
	case "nestarray", "nestdict", "neststring":
		o, e := "[", "]"
		if s.How == "nestdict" {
			o, e = "<</A ", ">>"
		} else if s.How == "neststring" {
			o, e = "(", ")"
		}
		n := []int{5000, 200000, 2000000}[s.Site%3]
		v := pdfx.Raw(strings.Repeat(o, n) + " " + strings.Repeat(e, n))
		switch r.Intn(4) {
		case 0:
			cat["Nest"] = v
		case 1:
			_, page := of("page1", "Contents")
			page["Contents"] = d.put(&pdfx.Stream{D: pdfx.Dict{}, Raw: []byte(string(v) + " TJ")})
		case 2:
			_, x := of("info", "Title")
			x["Title"] = v
		default:
			_, x := of("annots1", "Subtype")
			x["Rect"] = v
		}
	case "xmldeep":
		d.cur = "xfa"
		n := []int{1000, 50000, 400000}[s.Site%3]
		o := []string{"<a>", "<subform name='s'>", "<field name='f1'>"}[r.Intn(3)]
		e := map[string]string{"<a>": "</a>", "<subform name='s'>": "</subform>", "<field name='f1'>": "</field>"}[o]
		deep := func(root string) pdfx.Ref {
			return d.put(&pdfx.Stream{D: pdfx.Dict{}, Raw: []byte("<" + root + ">" + strings.Repeat(o, n) + strings.Repeat(e, n) + "</" + strings.Fields(root)[0] + ">")})
		}
		_, af := of("form", "Fields")
		af["XFA"] = pdfx.Arr{pdfx.Str("template"), deep("template"), pdfx.Str("datasets"), deep("xfa:datasets xmlns:xfa='http://www.xfa.org/schema/xfa-data/1.0/'"), pdfx.Str("config"), deep("config")}
		for _, k := range [][3]string{{"stylesheet", "style", "font"}, {"localeSet", "locale", "calendar"}, {"connectionSet", "connection", "dataDescription"}} {
			in := []string{k[1], k[2], "a"}[r.Intn(3)]
			m := n/4 + 1
			raw := "<" + k[0] + "><" + k[1] + ">" + strings.Repeat("<"+in+">", m) + strings.Repeat("</"+in+">", m) + "</" + k[1] + "></" + k[0] + ">"
			af["XFA"] = append(af["XFA"].(pdfx.Arr), pdfx.Str(k[0]), d.put(&pdfx.Stream{D: pdfx.Dict{}, Raw: []byte(raw)}))
		}
	case "prevring", "prevlong", "prevcycle", "extends":
		post = func(b []byte) []byte {
			if s.How == "prevlong" || s.How == "prevcycle" {
				f, err := pdfx.ReadFile(clean)
				if err != nil {
					panic("harness: " + err.Error())
				}
				out := append([]byte(nil), clean...)
				prev := f.StartXRef
				n, ring := []int{50, 400, 1500}[s.Site%3], -1
				if s.How == "prevcycle" { // the sections added name each other, round and round
					n = []int{2, 3, 40}[s.Site%3]
				}
				id, enc := "", ""
				if v := f.Trailer["ID"]; v != nil {
					id = "/ID " + string(pdfx.Write(v))
				}
				if v := f.Trailer["Encrypt"]; v != nil {
					enc = "/Encrypt " + string(pdfx.Write(v))
				}
				for i := 0; i < n; i++ {
					at := len(out)
					out = append(out, fmt.Sprintf("\n%d 0 obj\n<</Rev %d>>\nendobj\n", 5000+i%7, i)...)
					x := len(out)
					if i == 0 {
						ring = x
					}
					out = append(out, fmt.Sprintf("xref\n%d 1\n%010d 00000 n \ntrailer\n<</Size 6000/Root %d %d R/Prev %010d %s %s>>\nstartxref\n%d\n%%%%EOF\n", 5000+i%7, at+1, d.root.N, d.root.G, prev, id, enc, x)...)
					prev = x
				}
				if s.How == "prevcycle" {
					at := ring + bytes.Index(out[ring:], []byte("/Prev "))
					copy(out[at:], fmt.Sprintf("/Prev %010d", prev))
				}
				return out
			}
			return b
		}
		if s.How == "prevring" {
			prevs := []string{}
			d.mangle = func(st *pdfx.Stream) {
				if st.D["Root"] != nil || st.D["W"] != nil {
					// its own place, which will be where the file ends now
					at := d.b.Buf.Len()
					prevs = append(prevs, fmt.Sprint(at))
					st.D["Prev"] = []pdfx.Val{at, 0, -1, at - 20}[r.Intn(4)]
					if st.D["W"] == nil {
						if i := bytes.LastIndex(d.b.Buf.Bytes(), []byte("xref")); i >= 0 {
							st.D["Prev"] = i
						}
						if r.Intn(2) == 0 {
							st.D["XRefStm"] = st.D["Prev"]
						}
					}
				}
			}
		}
		if s.How == "extends" {
			var last int
			d.mangle = func(st *pdfx.Stream) {
				if st.D["First"] != nil {
					st.D["Extends"] = pdfx.Ref{N: d.b.Next - 1}
					if last > 0 && r.Intn(2) == 0 {
						st.D["Extends"] = pdfx.Ref{N: last}
					}
					last = d.b.Next - 1
				}
			}
		}
	default:
		panic("harness: shape " + s.How)
	}
	_ = ref
	if d.mangle == nil {
		d.mangle = func(*pdfx.Stream) {}
	}
	data := d.serialise(r)
	if post != nil {
		data = post(data)
	}
	x := &robRun{t: t, c: c, data: data}
	v := x.views(data, d.pw, d.pages)
	if wantPages >= 0 && !t.Failed() {
		if n := strings.Count(v["pages"], "],[") + 1; n != wantPages {
			t.FailBlob("manypages", data, "%d pages, %d read: %s", wantPages, n, robShort(v["pages"]))
		}
	}
	if s.How == "manypages" || s.How == "widekids" {
		d.pages = big / 4
	}
	x.deeds(clean, d.pw, d.names, d.pages)
	t.Count("shape: "+s.How, 1)
}
