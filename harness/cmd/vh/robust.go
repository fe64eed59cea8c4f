package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/benedoc-inc/pdfer/content/extract"
	"github.com/benedoc-inc/pdfer/core/compare"
	"github.com/benedoc-inc/pdfer/core/encrypt"
	"github.com/benedoc-inc/pdfer/core/manipulate"
	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/core/syntax"
	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/forms"
	"github.com/benedoc-inc/pdfer/forms/acroform"
	"github.com/benedoc-inc/pdfer/forms/xfa"
	"github.com/benedoc-inc/pdfer/types"
	"verif/harness/pdfx"
)

// P12: damage plans of Robust.tla carried out on documents and data, and every
// way to read and to change documents tried on what is left.

type robDamage struct {
	What, Piece, How string
	Site             int
}

type robTrace struct {
	Plan  []robDamage
	Calm  []string
	Views []string
}

// ------------------------------------------------------------- documents

type robDoc struct {
	*genDoc
	r     *rand.Rand
	piece map[int]string // object -> piece
	cur   string         // piece objects are being made for
	names []string       // of fields
	xfa   bool
	pages int
	site  int  // site to damage, if not any (less than 0)
	over  bool // there is no such site
}

func (d *robDoc) put(v pdfx.Val) pdfx.Ref {
	x := d.add(v)
	d.piece[x.N] = d.cur
	return x
}

func (d *robDoc) at(x pdfx.Ref, v pdfx.Val) pdfx.Ref {
	d.set(x.N, v)
	d.piece[x.N] = d.cur
	return x
}

func (d *robDoc) maybe(v pdfx.Val) pdfx.Val {
	if d.r.Intn(3) == 0 {
		return d.put(v)
	}
	return v
}

// stream makes a stream object with filters now and then.
func (d *robDoc) stream(x pdfx.Dict, data []byte) pdfx.Ref {
	return d.streamAt(d.reserve(d.r), x, data)
}

func (d *robDoc) streamAt(ref pdfx.Ref, x pdfx.Dict, data []byte) pdfx.Ref {
	r := d.r
	raw := data
	switch r.Intn(6) {
	case 0, 1:
		raw = pdfx.Deflate(raw)
		x["Filter"] = d.maybe(pdfx.Name("FlateDecode"))
	case 2:
		cols := 1 + r.Intn(12)
		for len(raw)%cols != 0 {
			raw = append(raw, ' ')
		}
		raw = pdfx.PredEncode(raw, cols, 1, func(row int) byte { return byte(row % 5) })
		raw = pdfx.HexEnc(pdfx.Deflate(raw), "plain", r)
		x["Filter"] = pdfx.Arr{pdfx.Name("ASCIIHexDecode"), pdfx.Name("FlateDecode")}
		x["DecodeParms"] = pdfx.Arr{pdfx.Null{}, pdfx.Dict{"Predictor": 12, "Columns": cols}}
	case 3:
		raw = pdfx.A85Enc(raw, "plain", r)
		x["Filter"] = pdfx.Arr{pdfx.Name("ASCII85Decode")}
	}
	return d.at(ref, &pdfx.Stream{D: x, Raw: raw})
}

func newRobDoc(r *rand.Rand, pages int, crypt bool) *robDoc {
	g := &genDoc{num: map[int]int{}, objs: map[int]pdfx.Val{}, gens: map[int]int{}, nums: newNumberer(r, 220)}
	d := &robDoc{genDoc: g, r: r, piece: map[int]string{}, pages: pages, site: -1}
	if crypt {
		d.pw = []byte("pw")
		d.crypt = newCrypt(r, handlerCfg(r, []string{"R2", "R3", "R4rc4", "R4aes", "R5", "R6"}[r.Intn(6)]), d.pw, []byte("owner"))
	}
	N := func(s string) pdfx.Name { return pdfx.Name(s) }
	root, tree, sub := d.reserve(r), d.reserve(r), d.reserve(r)
	var page []pdfx.Ref
	for i := 0; i < pages; i++ {
		page = append(page, d.reserve(r))
	}
	field := []pdfx.Ref{d.reserve(r), d.reserve(r), d.reserve(r), d.reserve(r)}
	of := func(k string, i int) string { return fmt.Sprint(k, i+1) }
	nums := func(n int) pdfx.Arr {
		a := pdfx.Arr{}
		for ; n > 0; n-- {
			a = append(a, pdfx.Real(float64(r.Intn(4000))/8))
		}
		return a
	}
	for i := range page {
		// images
		d.cur = of("image", i)
		im := func(x pdfx.Dict, data []byte) pdfx.Ref {
			x["Type"], x["Subtype"] = N("XObject"), N("Image")
			return d.at(d.reserve(r), &pdfx.Stream{D: x, Raw: data})
		}
		pix := func(n int) []byte { b := make([]byte, n); r.Read(b); return b }
		mask := im(pdfx.Dict{"Width": 4, "Height": 4, "ColorSpace": N("DeviceGray"), "BitsPerComponent": 8, "Filter": N("FlateDecode")}, pdfx.Deflate(pix(16)))
		im1 := im(pdfx.Dict{"Width": 4, "Height": 3, "ColorSpace": N("DeviceRGB"), "BitsPerComponent": 8, "Filter": N("FlateDecode"), "SMask": mask,
			"DecodeParms": pdfx.Dict{"Predictor": 15, "Colors": 3, "BitsPerComponent": 8, "Columns": 4}},
			pdfx.Deflate(pdfx.PredEncode(pix(36), 12, 3, func(row int) byte { return byte(row % 5) })))
		im2 := im(pdfx.Dict{"Width": 8, "Height": 2, "BitsPerComponent": 1, "ImageMask": true, "Decode": pdfx.Arr{1, 0}, "Filter": N("RunLengthDecode")}, pdfx.RLEnc(pix(2), "plain", r))
		pal := d.stream(pdfx.Dict{}, pix(12))
		im3 := im(pdfx.Dict{"Width": 4, "Height": 4, "BitsPerComponent": 2, "ColorSpace": d.maybe(pdfx.Arr{N("Indexed"), N("DeviceRGB"), 3, pal}),
			"Filter": pdfx.Arr{N("ASCIIHexDecode")}}, pdfx.HexEnc(pix(4), "plain", r))
		var jpg []byte
		for k := 0; k < 20 && jpg == nil; k++ {
			if o := pbNewImage(r); o.jpeg {
				jpg = o.data
			}
		}
		im4 := im(pdfx.Dict{"Width": 3, "Height": 3, "BitsPerComponent": 8, "ColorSpace": N("DeviceRGB"), "Filter": N("DCTDecode")}, jpg)

		// fonts and other resources
		d.cur = of("res", i)
		res := d.reserve(r)
		cmaps := func(data []byte) pdfx.Val { return d.stream(pdfx.Dict{}, data) }
		fonts := newFonts(r, cmaps)
		fd := pdfx.Dict{}
		for k := 1; k <= 3; k++ {
			x := fonts[k].dict
			if k == 1 {
				x["FirstChar"], x["LastChar"], x["Widths"] = 32, 40, d.maybe(nums(9))
				x["FontDescriptor"] = d.put(pdfx.Dict{"Type": N("FontDescriptor"), "FontName": N("Helvetica"), "Flags": 32, "FontBBox": nums(4),
					"ItalicAngle": 0, "Ascent": 800, "Descent": -200, "CapHeight": 700, "StemV": 80, "FontFile2": d.stream(pdfx.Dict{"Length1": 40}, pix(40))})
			}
			if k == 3 {
				df := x["DescendantFonts"].(pdfx.Arr)[0].(pdfx.Dict)
				df["W"] = pdfx.Arr{1, pdfx.Arr{500, 600}, 5, 9, 700}
				df["CIDSystemInfo"] = pdfx.Dict{"Registry": pdfx.Str("Adobe"), "Ordering": pdfx.Str("Identity"), "Supplement": 0}
			}
			fd["F"+strconv.Itoa(k)] = d.put(x)
		}
		fm2 := d.stream(pdfx.Dict{"Type": N("XObject"), "Subtype": N("Form"), "BBox": pdfx.Arr{0, 0, 10, 10}, "Matrix": nums(6)},
			[]byte("q 0.5 g 0 0 5 5 re f BT /F1 7 Tf 1 2 Td (inner) Tj ET Q"))
		fm := d.stream(pdfx.Dict{"Type": N("XObject"), "Subtype": N("Form"), "BBox": pdfx.Arr{0, 0, 10, 10}, "Resources": d.maybe(pdfx.Dict{"XObject": pdfx.Dict{"Fn": fm2, "Im": im1}, "Font": fd})},
			[]byte("q 2 0 0 2 1 1 cm /Fn Do 3 0 0 3 0 0 cm /Im Do Q BT /F2 9 Tf 3 3 Td (form) Tj ET"))
		d.at(res, pdfx.Dict{"Font": d.maybe(fd), "XObject": d.maybe(pdfx.Dict{"Fm": fm, "I1": im1, "I2": im2, "I3": im3, "I4": im4}),
			"ExtGState":  pdfx.Dict{"G0": pdfx.Dict{"LW": 2, "CA": pdfx.Real(0.5), "Font": pdfx.Arr{fd["F1"], 12}}},
			"ColorSpace": pdfx.Dict{"CS0": pdfx.Arr{N("ICCBased"), d.stream(pdfx.Dict{"N": 3}, pix(30))}}, "ProcSet": pdfx.Arr{N("PDF"), N("Text")},
			"Properties": pdfx.Dict{"MC0": pdfx.Dict{"Type": N("OCG"), "Name": pdfx.Str("layer")}}})

		// contents
		d.cur = of("content", i)
		body := fmt.Sprintf("q 1 0 0 1 10 20 cm /G0 gs 1 0 0 rg BT /F1 12 Tf 14 TL 72 700 Td (Page %d of %d) Tj T* [(ab) -120 <6364>] TJ 2 Tr 1 Tc 3 Tw (next \\(line\\) \\101) ' 1 2 (w) \" ET Q\n", i+1, pages)
		body += "/Span <</MCID 0 /ActualText (x)>> BDC BT /F2 10 Tf 1 0 0.2 1 50 500 Tm <4142> Tj ET EMC\n"
		body += "q 0 0 1 RG 2 w [3 1] 0 d 10 10 m 200 30 l 50 60 70 80 90 100 c h S 5 5 100 50 re f* Q\n"
		body += "q 20 0 0 20 100 100 cm /I1 Do Q q 9 0 0 9 1 1 cm /I4 Do Q /I2 Do /I3 Do /Fm Do\n"
		inline := "q 8 0 0 8 3 3 cm BI /W 2 /H 2 /BPC 8 /CS /G ID \x01\x02\x03\x04 EI Q\n"
		parts := []string{body, inline, "BT /F3 11 Tf 10 400 Td <" + fmt.Sprintf("%x", fonts[3].code["A"]) + "> Tj ET\n"}
		var contents pdfx.Val
		if r.Intn(2) == 0 {
			contents = d.stream(pdfx.Dict{}, []byte(strings.Join(parts, "")))
		} else {
			a := pdfx.Arr{}
			for _, p := range parts {
				a = append(a, d.stream(pdfx.Dict{}, []byte(p)))
			}
			contents = d.put(a)
		}

		// annotations
		d.cur = of("annots", i)
		a := pdfx.Arr{
			d.put(pdfx.Dict{"Type": N("Annot"), "Subtype": N("Link"), "Rect": nums(4), "Dest": pdfx.Arr{page[(i+1)%pages], N("XYZ"), pdfx.Null{}, 700, 0}, "Border": pdfx.Arr{0, 0, 1}}),
			d.put(pdfx.Dict{"Type": N("Annot"), "Subtype": N("Link"), "Rect": d.maybe(nums(4)), "A": d.maybe(pdfx.Dict{"S": N("URI"), "URI": pdfx.Str("http://x.org/(a)")})}),
			d.put(pdfx.Dict{"Type": N("Annot"), "Subtype": N("Text"), "Rect": nums(4), "Contents": d.maybe(pdfx.Str("note")), "T": pdfx.Str("me"), "M": pdfx.Str("D:20240102030405Z"), "C": nums(3), "F": 4, "Name": N("Comment"), "Open": true}),
			d.put(pdfx.Dict{"Type": N("Annot"), "Subtype": N("Highlight"), "Rect": nums(4), "QuadPoints": nums(8), "Popup": d.put(pdfx.Dict{"Type": N("Annot"), "Subtype": N("Popup"), "Rect": nums(4)}),
				"AP": pdfx.Dict{"N": d.stream(pdfx.Dict{"Type": N("XObject"), "Subtype": N("Form"), "BBox": nums(4)}, []byte("0 0 1 1 re f"))}}),
			d.put(pdfx.Dict{"Type": N("Annot"), "Subtype": N("Link"), "Rect": nums(4), "A": pdfx.Dict{"S": N("GoTo"), "D": pdfx.Str("d2")}}),
		}
		if i == 0 {
			a = append(a, field[0], field[1], field[3])
		}
		annots := d.put(a)

		d.cur = of("page", i)
		v := pdfx.Dict{"Type": N("Page"), "Parent": tree, "Contents": contents, "Resources": res, "Annots": annots}
		if i < 2 {
			v["Parent"] = sub
		}
		if r.Intn(2) == 0 {
			v["MediaBox"] = pdfx.Arr{0, 0, 300, 400 + i}
			v["CropBox"] = pdfx.Arr{1, 1, 200, 300}
			v["TrimBox"] = d.maybe(pdfx.Arr{2, 2, 190, 290})
			v["Rotate"] = d.maybe(90 * r.Intn(4))
		}
		d.at(page[i], v)
	}
	d.cur = "tree"
	kids := pdfx.Arr{}
	for i := range page {
		if i < 2 {
			kids = append(kids, page[i])
		}
	}
	d.at(sub, pdfx.Dict{"Type": N("Pages"), "Parent": tree, "Kids": kids, "Count": len(kids)})
	top := pdfx.Arr{sub}
	for i := 2; i < pages; i++ {
		top = append(top, page[i])
	}
	d.at(tree, pdfx.Dict{"Type": N("Pages"), "Kids": d.maybe(top), "Count": d.maybe(pages), "MediaBox": d.maybe(pdfx.Arr{0, 0, 612, 792}), "Rotate": 0})

	d.cur = "names"
	leaf := d.put(pdfx.Dict{"Limits": pdfx.Arr{pdfx.Str("d1"), pdfx.Str("d2")}, "Names": pdfx.Arr{pdfx.Str("d1"), pdfx.Dict{"D": pdfx.Arr{page[0], N("Fit")}}, pdfx.Str("d2"), d.put(pdfx.Arr{page[pages-1], N("FitH"), 100})}})
	leaf2 := d.put(pdfx.Dict{"Limits": pdfx.Arr{pdfx.Str("e"), pdfx.Str("e")}, "Names": pdfx.Arr{pdfx.Str("e"), pdfx.Arr{page[0], N("XYZ"), 1, 2, 3}}})
	dests := d.put(pdfx.Dict{"Kids": pdfx.Arr{leaf, leaf2}})
	names := d.put(pdfx.Dict{"Dests": dests})

	d.cur = "item"
	it := []pdfx.Ref{d.reserve(r), d.reserve(r), d.reserve(r), d.reserve(r)}
	outline := d.reserve(r)
	d.at(it[0], pdfx.Dict{"Title": d.maybe(pdfx.Str("One")), "Parent": outline, "Next": it[1], "First": it[2], "Last": it[3], "Count": 2, "Dest": pdfx.Arr{page[0], N("XYZ"), 0, 700, pdfx.Null{}}})
	d.at(it[1], pdfx.Dict{"Title": pdfx.Str("\xfe\xff\x00T\x00w\x00o"), "Parent": outline, "Prev": it[0], "A": d.maybe(pdfx.Dict{"S": N("URI"), "URI": pdfx.Str("http://x.org")})})
	d.at(it[2], pdfx.Dict{"Title": pdfx.Str("Sub (1)"), "Parent": it[0], "Next": it[3], "Dest": pdfx.Str("d2"), "C": nums(3), "F": 1})
	d.at(it[3], pdfx.Dict{"Title": pdfx.Str("Sub 2"), "Parent": it[0], "Prev": it[2], "A": pdfx.Dict{"S": N("GoTo"), "D": pdfx.Str("d1")}})
	d.cur = "outline"
	d.at(outline, pdfx.Dict{"Type": N("Outlines"), "First": it[0], "Last": it[1], "Count": 4})

	d.cur = "field"
	ap := func(s string) pdfx.Ref {
		return d.stream(pdfx.Dict{"Type": N("XObject"), "Subtype": N("Form"), "BBox": nums(4)}, []byte("/Tx BMC q BT ("+s+") Tj ET Q EMC"))
	}
	d.at(field[0], pdfx.Dict{"Type": N("Annot"), "Subtype": N("Widget"), "FT": N("Tx"), "T": pdfx.Str("name"), "V": d.maybe(pdfx.Str("val")), "DV": pdfx.Str("def"), "Rect": nums(4), "P": page[0],
		"DA": pdfx.Str("/Helv 12 Tf 0 g"), "MaxLen": 30, "Ff": 2, "TU": pdfx.Str("tip"), "AP": pdfx.Dict{"N": ap("x")}, "MK": pdfx.Dict{"BC": nums(3)}, "F": 4})
	d.at(field[1], pdfx.Dict{"Type": N("Annot"), "Subtype": N("Widget"), "FT": N("Btn"), "T": pdfx.Str("box"), "V": N("Yes"), "AS": N("Yes"), "Rect": nums(4),
		"AP": d.maybe(pdfx.Dict{"N": pdfx.Dict{"Yes": ap("y"), "Off": ap("")}})})
	d.at(field[2], pdfx.Dict{"T": pdfx.Str("group"), "FT": N("Tx"), "Kids": d.maybe(pdfx.Arr{
		d.put(pdfx.Dict{"T": pdfx.Str("kid"), "Parent": field[2], "V": pdfx.Str("k"), "Type": N("Annot"), "Subtype": N("Widget"), "Rect": nums(4)}),
		d.put(pdfx.Dict{"T": pdfx.Str("radio"), "FT": N("Btn"), "Ff": 32768, "Parent": field[2], "V": N("b"), "Opt": pdfx.Arr{pdfx.Str("A"), pdfx.Str("B")}, "Kids": pdfx.Arr{
			d.put(pdfx.Dict{"Subtype": N("Widget"), "Rect": nums(4), "AS": N("Off"), "AP": pdfx.Dict{"N": pdfx.Dict{"a": ap("a"), "Off": ap("")}}}),
			d.put(pdfx.Dict{"Subtype": N("Widget"), "Rect": nums(4), "AS": N("b"), "AP": pdfx.Dict{"N": pdfx.Dict{"b": ap("b"), "Off": ap("")}}})}})})})
	d.at(field[3], pdfx.Dict{"Type": N("Annot"), "Subtype": N("Widget"), "FT": N("Ch"), "T": pdfx.Str("pick"), "Ff": 131072, "V": pdfx.Str("b"), "I": pdfx.Arr{1}, "TI": 0, "Rect": nums(4),
		"Opt": d.maybe(pdfx.Arr{pdfx.Str("a"), pdfx.Arr{pdfx.Str("b"), pdfx.Str("Bee")}})})
	d.names = []string{"name", "box", "group.kid", "group.radio", "pick"}
	var xf pdfx.Val
	if r.Intn(2) == 0 {
		d.xfa = true
		d.cur = "xfa"
		a := pdfx.Arr{}
		for _, n := range []string{"preamble", "config", "template", "localeSet", "datasets", "connectionSet", "stylesheet", "postamble"} {
			a = append(a, d.maybe(pdfx.Str(n)), d.stream(pdfx.Dict{}, []byte(robXML(r, n))))
		}
		xf = d.put(a)
	}
	d.cur = "form"
	form := pdfx.Dict{"Fields": d.maybe(pdfx.Arr{field[0], field[1], field[2], field[3]}), "DA": pdfx.Str("/Helv 0 Tf 0 g"), "NeedAppearances": true, "SigFlags": 0,
		"DR": pdfx.Dict{"Font": pdfx.Dict{"Helv": d.put(pdfx.Dict{"Type": N("Font"), "Subtype": N("Type1"), "BaseFont": N("Helvetica")})}}, "CO": pdfx.Arr{field[0]}}
	if xf != nil {
		form["XFA"] = xf
	}
	af := d.put(form)

	d.cur = "xmp"
	xmp := d.at(d.reserve(r), &pdfx.Stream{D: pdfx.Dict{"Type": N("Metadata"), "Subtype": N("XML")}, Raw: []byte("<?xpacket begin='' id='W5'?><x:xmpmeta xmlns:x='adobe:ns:meta/'><rdf:RDF/></x:xmpmeta><?xpacket end='w'?>")})
	d.cur = "info"
	info := d.put(pdfx.Dict{"Title": d.maybe(pdfx.Str("T (x)")), "Author": pdfx.Str("\xfe\xff\x00A"), "CreationDate": pdfx.Str("D:20240131235959+01'00'"), "ModDate": pdfx.Str("D:20240202"),
		"Keywords": pdfx.Str("a, b"), "Producer": pdfx.Str("p"), "Custom": pdfx.Str("c"), "Trapped": N("False")})
	d.info = &info
	d.cur = "catalog"
	d.at(root, pdfx.Dict{"Type": N("Catalog"), "Pages": tree, "Outlines": outline, "Names": names, "AcroForm": af, "Metadata": xmp, "Version": N("1.7"),
		"PageMode": N("UseOutlines"), "OpenAction": pdfx.Arr{page[0], N("Fit")}, "Lang": pdfx.Str("en"), "ViewerPreferences": pdfx.Dict{"DisplayDocTitle": true},
		"Dests": pdfx.Dict{"old": pdfx.Arr{page[0], N("Fit")}}, "PageLabels": pdfx.Dict{"Nums": pdfx.Arr{0, pdfx.Dict{"S": N("D")}}}, "MarkInfo": pdfx.Dict{"Marked": true}})
	d.root = root
	return d
}

func robXML(r *rand.Rand, packet string) string {
	switch packet {
	case "preamble":
		return `<xdp:xdp xmlns:xdp="http://ns.adobe.com/xdp/">`
	case "postamble":
		return `</xdp:xdp>`
	case "config":
		return `<config xmlns="http://www.xfa.org/schema/xci/3.0/"><present><pdf><version>1.7</version><compression><level>6</level><compressObjectStream>1</compressObjectStream></compression></pdf><output><to>null</to></output></present><acrobat><acrobat7><dynamicRender>required</dynamicRender></acrobat7><validate>preSubmit</validate></acrobat></config>`
	case "template":
		return `<template xmlns="http://www.xfa.org/schema/xfa-template/3.3/"><subform name="form1" layout="tb" locale="en_US"><pageSet><pageArea name="P1"><contentArea x="1in" y="1in"/></pageArea></pageSet><subform name="s"><field name="f1" w="62mm" h="9mm"><ui><textEdit/></ui><caption><value><text>Label</text></value></caption><value><text>v</text></value><validate nullTest="error"><script>this.rawValue != null</script></validate><event activity="exit"><script contentType="application/x-javascript">x()</script></event></field><field name="f2"><ui><choiceList open="onEntry"/></ui><items><text>a</text><text>b</text></items><items save="1"><text>1</text><text>2</text></items></field><exclGroup name="g"><field name="r1"><ui><checkButton/></ui><items><integer>1</integer></items></field></exclGroup><draw name="d"><value><text>static</text></value></draw></subform></subform></template>`
	case "localeSet":
		return `<localeSet xmlns="http://www.xfa.org/schema/xfa-locale-set/2.7/"><locale name="en_US" desc="English"><calendarSymbols name="gregorian"><monthNames><month>January</month></monthNames><dayNames><day>Sunday</day></dayNames><meridiemNames><meridiem>AM</meridiem></meridiemNames><eraNames><era>BC</era></eraNames></calendarSymbols><datePatterns><datePattern name="full">EEEE</datePattern></datePatterns><numberSymbols><numberSymbol name="decimal">.</numberSymbol></numberSymbols><currencySymbols><currencySymbol name="symbol">$</currencySymbol></currencySymbols></locale></localeSet>`
	case "datasets":
		return `<xfa:datasets xmlns:xfa="http://www.xfa.org/schema/xfa-data/1.0/"><xfa:data><form1><field name="f1"><value>v1</value></field><s><field name="f2"><value>1</value></field></s></form1></xfa:data></xfa:datasets>`
	case "connectionSet":
		return `<connectionSet xmlns="http://www.xfa.org/schema/xfa-connection-set/2.8/"><wsdlConnection name="c" dataDescription="d"><wsdlAddress>http://x</wsdlAddress><soapAction>a</soapAction><operation name="o"/></wsdlConnection><xmlConnection name="x" dataDescription="d"><uri>u</uri></xmlConnection></connectionSet>`
	}
	return `<stylesheet id="s" xmlns="http://www.w3.org/1999/XSL/Transform"><style name="st"><font typeface="Arial" size="10pt"/><fill><color value="1,2,3"/></fill></style></stylesheet>`
}

// ------------------------------------------------------------- value damage

// robSite is a value of the document that can be overwritten.
type robSite struct {
	get  func() pdfx.Val
	set  func(pdfx.Val)
	drop func()
}

func robSites(v pdfx.Val, out *[]robSite) {
	switch x := v.(type) {
	case pdfx.Dict:
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			k := k
			*out = append(*out, robSite{func() pdfx.Val { return x[k] }, func(v pdfx.Val) { x[k] = v }, func() { delete(x, k) }})
			robSites(x[k], out)
		}
	case pdfx.Arr:
		for i := range x {
			i := i
			*out = append(*out, robSite{func() pdfx.Val { return x[i] }, func(v pdfx.Val) { x[i] = v }, func() { x[i] = pdfx.Raw("") }})
			robSites(x[i], out)
		}
	case *pdfx.Stream:
		robSites(x.D, out)
	}
}

func robCopy(v pdfx.Val) pdfx.Val {
	switch x := v.(type) {
	case pdfx.Dict:
		o := pdfx.Dict{}
		for k, e := range x {
			o[k] = robCopy(e)
		}
		return o
	case pdfx.Arr:
		o := make(pdfx.Arr, len(x))
		for i, e := range x {
			o[i] = robCopy(e)
		}
		return o
	case *pdfx.Stream:
		return &pdfx.Stream{D: robCopy(x.D).(pdfx.Dict), Raw: append([]byte(nil), x.Raw...)}
	}
	return v
}

// value is what a site's value becomes.
func (d *robDoc) value(how string, r *rand.Rand, own int, peers, all []robSite) pdfx.Val {
	switch how {
	case "null":
		return pdfx.Null{}
	case "minus":
		return -1 - r.Intn(2)*r.Intn(70000)
	case "zero":
		return 0
	case "one":
		return 1 + r.Intn(3)
	case "big":
		return []pdfx.Val{2147483647, pdfx.Raw("4294967296"), pdfx.Raw("9223372036854775807"), 1000000000, 65536}[r.Intn(5)]
	case "vast":
		return pdfx.Raw([]string{"99999999999999999999", "-99999999999999999999", "1e400", "+-5", "0x10", "..", "-"}[r.Intn(7)])
	case "real":
		return pdfx.Raw([]string{"3.7", "-0.001", ".5", "4.", "1000000000000.25"}[r.Intn(5)])
	case "name":
		return pdfx.Name([]string{"X", "", "FlateDecode", "Page", "Identity", "A B#"}[r.Intn(6)])
	case "string":
		return pdfx.Str([]string{"", "x", "\xfe\xff", "\xfe\xff\xd8\x00", "\xff\xfe\x00", "D:99999999", "\xef\xbb\xbf\xff"}[r.Intn(7)])
	case "array":
		return []pdfx.Val{pdfx.Arr{}, pdfx.Arr{0}, pdfx.Arr{pdfx.Arr{}, pdfx.Null{}}, pdfx.Arr{-1, -1, -1, -1}}[r.Intn(4)]
	case "dict":
		return []pdfx.Val{pdfx.Dict{}, pdfx.Dict{"": 1}, pdfx.Raw("<</A>>"), pdfx.Raw("<</A/B/C"), pdfx.Raw(">>"), pdfx.Raw("]"), pdfx.Raw("<</A 1 0"), pdfx.Raw("(a(b"), pdfx.Raw("<4")}[r.Intn(9)]
	case "self":
		if own > 0 {
			return pdfx.Ref{N: own, G: d.gens[own]}
		}
		return d.root
	case "top":
		return d.root
	case "gone":
		return []pdfx.Val{pdfx.Ref{N: 99999}, pdfx.Ref{N: 0, G: 65535}, pdfx.Raw("99999999999999999999 0 R"), pdfx.Raw("-5 0 R"), pdfx.Ref{N: own, G: 7}}[r.Intn(5)]
	case "peer":
		if len(peers) > 0 {
			return robCopy(peers[r.Intn(len(peers))].get())
		}
	case "other":
		if len(all) > 0 {
			return robCopy(all[r.Intn(len(all))].get())
		}
	case "stream":
		for _, n := range r.Perm(len(d.order)) {
			if _, ok := d.objs[d.order[n]].(*pdfx.Stream); ok {
				return pdfx.Ref{N: d.order[n], G: d.gens[d.order[n]]}
			}
		}
	case "nest":
		n := []int{3, 40, 400}[r.Intn(3)]
		o := []string{"[", "<</A", "("}[r.Intn(3)]
		c := map[string]string{"[": "]", "<</A": ">>", "(": ")"}[o]
		if r.Intn(4) == 0 {
			c = ""
		}
		return pdfx.Raw(strings.Repeat(o, n) + " 1" + strings.Repeat(c, n))
	case "ring":
		a, b := d.put(nil), d.put(nil)
		d.set(a.N, b)
		d.set(b.N, a)
		if r.Intn(2) == 0 {
			d.set(a.N, pdfx.Dict{"Kids": pdfx.Arr{b, a}, "First": b, "Next": a, "Parent": a, "Type": pdfx.Name("Pages"), "Names": pdfx.Arr{pdfx.Str("d1"), a}, "Length": a, "Filter": a, "Count": b})
			d.set(b.N, pdfx.Arr{a, b})
		}
		return a
	}
	return pdfx.Null{}
}

func robBytes(how string, r *rand.Rand, b []byte) []byte {
	b = append([]byte(nil), b...)
	pos := r.Intn(len(b) + 1)
	if r.Intn(2) == 0 { // near something that matters
		w := []string{"xref", "trailer", "startxref", " obj", "stream", "endstream", "/Length", "/W", "/Index", "/Prev", "/Kids", "<<", ">>", "/Size", "/First", "/N ", "/Filter", "%%EOF", "endobj", "/ID", "/Encrypt", "%PDF"}[r.Intn(22)]
		var at []int
		for i := 0; ; {
			j := bytes.Index(b[i:], []byte(w))
			if j < 0 {
				break
			}
			at = append(at, i+j)
			i += j + 1
		}
		if len(at) > 0 {
			pos = at[r.Intn(len(at))] + r.Intn(len(w)+6) - 2
			if r.Intn(2) == 0 {
				pos = at[len(at)-1] + r.Intn(len(w)+6) - 2
			}
		}
	}
	if pos < 0 {
		pos = 0
	}
	if pos > len(b) {
		pos = len(b)
	}
	insert := func(x []byte) []byte { return append(append(append([]byte(nil), b[:pos]...), x...), b[pos:]...) }
	switch how {
	case "cut":
		return b[:pos]
	case "head":
		return b[pos:]
	case "empty":
		return nil
	case "zeros":
		return make([]byte, len(b))
	case "flip":
		for n := 1 + r.Intn(3); n > 0 && len(b) > 0; n-- {
			if pos < len(b) {
				b[pos] ^= byte(1 << uint(r.Intn(8)))
				if r.Intn(3) == 0 {
					b[pos] = byte(r.Intn(256))
				}
			}
			pos = r.Intn(len(b))
		}
	case "noise":
		n := 1 + r.Intn(20)
		for i := pos; i < len(b) && i < pos+n; i++ {
			b[i] = byte(r.Intn(256))
		}
		if r.Intn(4) == 0 {
			r.Read(b)
		}
	case "tail":
		x := make([]byte, 1+r.Intn(40))
		r.Read(x)
		return append(b, x...)
	case "lose":
		n := 1 + r.Intn(30)
		if r.Intn(4) == 0 {
			n = r.Intn(len(b) + 1)
		}
		if pos+n > len(b) {
			n = len(b) - pos
		}
		return append(b[:pos], b[pos+n:]...)
	case "repeat":
		n := 1 + r.Intn(60)
		if pos+n > len(b) {
			n = len(b) - pos
		}
		x := append([]byte(nil), b[pos:pos+n]...)
		return insert(bytes.Repeat(x, 1+r.Intn(3)))
	case "shift":
		return insert(bytes.Repeat([]byte{" \n\x00%("[r.Intn(5)]}, 1+r.Intn(20)))
	case "digits": // a number becomes another one
		i := pos
		for i < len(b) && (b[i] < '0' || b[i] > '9') {
			i++
		}
		j := i
		for j < len(b) && b[j] >= '0' && b[j] <= '9' {
			j++
		}
		if i == j {
			return b
		}
		x := []string{"0", "1", "2", "-1", "65535", "65536", "2147483647", "4294967295", "9223372036854775807", "99999999999999999999", strconv.Itoa(r.Intn(len(b) + 1)), ""}[r.Intn(12)]
		if r.Intn(3) == 0 { // the same length
			for k := i; k < j; k++ {
				b[k] = byte('0' + r.Intn(10))
			}
			return b
		}
		pos = i
		b = append(b[:i], b[j:]...)
		return insert([]byte(x))
	case "word":
		x := []string{"xref\n0 1\n", "trailer", "startxref\n0\n%%EOF\n", "1 0 obj", "endobj", "stream\n", "endstream", "<<", ">>", "[", "]", "(", ")", "<", ">", "R", "null", "/", "%", "BI ", "ID ", "EI ", "Do ", "Tj ", "BT ", "ET ", "q ", "Q ", "/Length 99999999 ", "/Prev 0 ",
			"<x>", "</x>", "&lt;", "&#0;", "<![CDATA[", "<!--", "beginbfrange <0000> <FFFFFFFF> <0000> endbfrange ", "beginbfchar <> <> endbfchar ", "\xff\xd8\xff\xc0", "\xff\xff\xff\xff", "~>", "z", "\x80"}[r.Intn(43)]
		return insert([]byte(x))
	case "flood":
		x := []string{"(", "<<", "[", "<", "/A ", "obj ", "1 0 obj ", "endobj ", "stream\n", "endstream ", "xref\n", "trailer\n", "startxref\n", "%%EOF\n", "\\", "%\n", " ", "BI ID ", "q ", "BT ", "Q ", "/Fm Do ", "<a>", "</a>", "&amp;", "-", "9", "0 0 l ", "(a) Tj ", "<41> <42>\n", "EI", "\x00", "\xff", "R ", "1 0 R ", "/Length ", "))", "/Encrypt ", "/Type /Page ", "/ID [", "1 beginbfrange\n<00> <ff> <0041>\nendbfrange\n", "<field name=\"f1\">", "<value>", ">", "]", "/T (", "<</A"}[r.Intn(47)]
		n := []int{2000, 100000, 600000}[r.Intn(3)]
		return insert(bytes.Repeat([]byte(x), n/len(x)))
	}
	return b
}

// harm carries out the damages that concern the document's values and streams;
// what it returns is done to the finished bytes.
func (d *robDoc) harm(plan []robDamage, r *rand.Rand) (later []robDamage) {
	var file []robDamage
	for _, x := range plan {
		rr := rand.New(rand.NewSource(r.Int63() + int64(x.Site)))
		switch {
		case x.What == "bytes" || x.What == "shape" || x.What == "format":
			later = append(later, x)
		case x.Piece == "file" || x.Piece == "crypt":
			file = append(file, x)
		default:
			var own, all []robSite
			var owner []int
			var streams []*pdfx.Stream
			var ns []int
			for n := range d.objs {
				ns = append(ns, n)
			}
			sort.Ints(ns)
			for _, n := range ns {
				var s []robSite
				n := n
				s = append(s, robSite{func() pdfx.Val { return d.objs[n] }, func(v pdfx.Val) { d.objs[n] = v }, func() { d.objs[n] = pdfx.Null{} }})
				robSites(d.objs[n], &s)
				all = append(all, s...)
				if d.piece[n] == x.Piece {
					own = append(own, s...)
					for range s {
						owner = append(owner, n)
					}
					if st, ok := d.objs[n].(*pdfx.Stream); ok {
						streams = append(streams, st)
					}
				}
			}
			if x.What == "stream" {
				if len(streams) > 0 {
					st := streams[rr.Intn(len(streams))]
					st.Raw = robBytes(x.How, rr, st.Raw)
				}
				continue
			}
			if d.over = len(own) == 0; d.over {
				continue
			}
			i := rr.Intn(len(own))
			if d.site >= 0 {
				if d.over = d.site >= len(own); d.over {
					continue
				}
				i = d.site
			}
			if x.How == "drop" {
				own[i].drop()
				continue
			}
			old := d.cur
			d.cur = x.Piece
			own[i].set(d.value(x.How, rr, owner[i], own, all))
			d.cur = old
		}
	}
	d.mangle = func(st *pdfx.Stream) {
		for _, x := range file {
			enc := st.D["CFM"] != nil || st.D["O"] != nil
			if (x.Piece == "crypt") != enc {
				continue
			}
			rr := rand.New(rand.NewSource(r.Int63() + int64(x.Site)))
			if !enc && rr.Intn(3) == 0 {
				continue
			}
			if x.What == "stream" {
				st.Raw = robBytes(x.How, rr, st.Raw)
				continue
			}
			var s, all []robSite
			for k, v := range st.D { // (arrays may be shared)
				st.D[k] = robCopy(v)
			}
			robSites(st.D, &s)
			for _, n := range d.order {
				robSites(d.objs[n], &all)
			}
			if x.How == "drop" {
				s[rr.Intn(len(s))].drop()
				continue
			}
			own := 0
			v := d.valueNoAdd(x.How, rr, own, s, all)
			s[rr.Intn(len(s))].set(v)
		}
	}
	return later
}

// valueNoAdd is value when no object can be added any more.
func (d *robDoc) valueNoAdd(how string, r *rand.Rand, own int, peers, all []robSite) pdfx.Val {
	if how == "ring" {
		return d.order0(r)
	}
	return d.value(how, r, own, peers, all)
}

func (d *robDoc) order0(r *rand.Rand) pdfx.Val {
	n := d.order[r.Intn(len(d.order))]
	return pdfx.Ref{N: n, G: d.gens[n]}
}

// ------------------------------------------------------------- readings

type robRun struct {
	t    *T
	c    *robChild
	data []byte
	skip func() bool // calls that are not made
}

// do makes one call; a panic is a violation.
func (x *robRun) do(name string, f func()) {
	if x.skip != nil && x.skip() {
		return
	}
	x.c.begin(name)
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(error); ok && errors.Is(e, errHarness) {
				panic(r)
			}
			st := debug.Stack()
			x.t.FailBlob("panic:"+topFrame(st), x.data, "%s panics: %v\n%s", name, r, trimStack(st))
		}
		x.c.begin("")
	}()
	x.t.Steps++
	f()
}

var errHarness = errors.New("harness")

func robJSON(v interface{}, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%#v", v)
	}
	return robVersion.ReplaceAllString(robDest.ReplaceAllStringFunc(string(b), func(s string) string {
		var syn string
		if json.Unmarshal([]byte(s[len(`"destination":`):]), &syn) == nil {
			if v, err := pdfx.Parse([]byte(syn)); err == nil {
				return `"destination":` + strconv.Quote(pdfx.Canon(v))
			}
		}
		return s
	}), "")
}

// What a reader quotes verbatim may be laid out in another way, and the
// header's version is chosen anew, each time a document is written.
var (
	robDest    = regexp.MustCompile(`"destination":"\[(?:[^"\\]|\\.)*"`)
	robVersion = regexp.MustCompile(`"pdf_version":"[^"]*",?`)
)

// views reads everything the specification calls a view.
func (x *robRun) views(data, pw []byte, pages int) map[string]string {
	o := map[string]string{}
	x.do("ExtractContent", func() {
		doc, err := extract.ExtractContent(data, pw, false)
		if err != nil {
			for _, v := range []string{"pages", "bookmarks", "metadata"} {
				o[v] = "error: " + err.Error()
			}
			return
		}
		var ps [][]interface{}
		for _, p := range doc.Pages {
			ps = append(ps, []interface{}{p.PageNumber, p.Width, p.Height, p.Rotation, p.MediaBox, p.CropBox, p.BleedBox, p.TrimBox, p.ArtBox})
		}
		o["pages"], o["bookmarks"], o["metadata"] = robJSON(ps, nil), robJSON(doc.Bookmarks, nil), robJSON(doc.Metadata, nil)
		for i := 0; i < pages; i++ {
			if i >= len(doc.Pages) {
				break
			}
			p, k := doc.Pages[i], strconv.Itoa(i+1)
			o["text"+k], o["drawing"+k] = robJSON(p.Text, nil), robJSON([]interface{}{p.Graphics, p.Images}, nil)
			o["resources"+k], o["notes"+k] = robJSON(p.Resources, nil), robJSON(p.Annotations, nil)
		}
	})
	x.do("ExtractAcroForm", func() {
		f, err := acroform.ExtractAcroForm(data, pw, false)
		if err != nil {
			o["fields"] = "error: " + err.Error()
			return
		}
		o["fields"] = robJSON(f.GetFieldValues(), nil) + robJSON(f.ToFormSchema(), nil)
	})
	x.do("XFAPackets", func() {
		p, err := parse.OpenWithOptions(data, parse.ParseOptions{Password: pw})
		if err != nil {
			o["packets"] = "error: " + err.Error()
			return
		}
		ps, err := p.XFAPackets()
		o["packets"] = robJSON(ps, err)
		for _, q := range ps {
			b, _, err := p.StreamData(q.ObjectNum)
			o["packets"] += robJSON(b, err)
		}
	})
	return o
}

// deeds makes every other call there is on documents.
func (x *robRun) deeds(clean, pw []byte, names []string, pages int) {
	data := x.data
	r := x.t.R
	some := func() bool { return r.Intn(3) > 0 }
	var enc *types.PDFEncryption
	x.do("DecryptPDF", func() { _, enc, _ = encrypt.DecryptPDF(data, pw, false) })
	if pw == nil {
		enc = nil
	}
	x.do("parse low level", func() {
		parse.ParsePDFTrailer(data)
		parse.FindObjectByNumber(data, 1+r.Intn(200), enc, false)
		parse.ParsePDFHeader(data)
		sx := int64(bytes.LastIndex(data, []byte("xref")))
		for _, at := range []int64{sx, 0, -1, int64(len(data)), int64(len(data)) - 1, int64(r.Intn(len(data) + 1)), int64(bytes.Index(data, []byte("/XRef"))) - 10, 1 << 40} {
			parse.ParseCrossReferenceTableWithEncryption(data, at, enc, false)
			parse.ParseTraditionalXRefTable(data, at)
			parse.ParseXRefStreamFull(data, at, false)
			parse.ParseXRefStreamWithEncryption(data, at, enc, false)
			parse.ParseXRefDataRaw(data, at)
			parse.ParseRawObjectAt(data, at)
			parse.ParseRawObject(data, 3, 0, at)
			parse.GetDirectObject(data, 3, at, enc, false)
			parse.ParseTrailerDataRaw(data, at, len(data))
			parse.ParseTrailerDataRaw(data, at, r.Intn(len(data)+2)-1)
		}
	})
	x.do("revisions", func() {
		n := parse.CountRevisions(data)
		parse.GetRevisionBoundaries(data)
		for i := -1; i <= n+1 && i < 5; i++ {
			parse.ExtractRevision(data, i)
		}
	})
	x.do("ParsePDFDocument", func() {
		doc, err := parse.ParsePDFDocument(data)
		if err != nil || doc == nil {
			return
		}
		for n := range doc.AllObjects() {
			if o := doc.GetObject(n); o != nil {
				o.Content()
				o.StreamData()
			}
			doc.GetObjectInRevision(n, 1)
		}
		doc.LatestRevision().RevisionBytes(doc)
	})
	for _, perfect := range []bool{false, true} {
		var p *parse.PDF
		x.do("Open", func() {
			p, _ = parse.OpenWithOptions(data, parse.ParseOptions{Password: pw, BytePerfect: perfect, Warnings: types.NewWarningCollector(true)})
		})
		if p == nil {
			continue
		}
		var nums []int
		x.do("PDF", func() {
			p.Version()
			p.RevisionCount()
			p.ObjectCount()
			p.Trailer()
			p.IsEncrypted()
			nums = p.Objects()
			p.Update(map[int][]byte{3: []byte("<</A 1>>")})
		})
		start := cpuNow()
		for i, n := range nums {
			if i > 400 || cpuNow()-start > 2*time.Second {
				break
			}
			x.do("GetObject", func() {
				b, err := p.GetObject(n)
				p.GetRawObject(n)
				p.StreamData(n)
				if err == nil {
					syntax.Refs(b)
					syntax.Entries(b)
					if i < 20 {
						parse.GetObject(data, n, enc, false)
						parse.FindObjectLocation(data, n, false)
						parse.GetObjectFromStream(data, n, n, 0, enc, false)
					}
				}
			})
		}
		x.do("extract", func() {
			extract.ExtractBookmarks(data, p, false)
			extract.ExtractMetadata(data, p, false)
			extract.ExtractPages(data, p, false)
		})
	}
	x.do("ExtractAllImages", func() { extract.ExtractAllImages(data, pw, false) })
	x.do("ExtractPageImages", func() { extract.ExtractPageImages(data, pw, false) })
	x.do("ExtractContentToJSON", func() { extract.ExtractContentToJSON(data, pw, false) })
	if some() {
		x.do("ExtractToDirectory", func() {
			dir, err := os.MkdirTemp("", "vhp12")
			if err != nil {
				panic(fmt.Errorf("%w: %v", errHarness, err))
			}
			defer os.RemoveAll(dir)
			extract.ExtractToDirectory(data, pw, dir, false)
		})
	}
	give := types.FormData{}
	for i, n := range names {
		give[n] = []interface{}{"x", true, "k", "A", "b"}[i]
	}
	x.do("forms", func() {
		forms.Detect(data, pw, false)
		if f, err := forms.Extract(data, pw, false); err == nil && f != nil {
			f.Type()
			f.Schema()
			f.GetValues()
			f.Validate(give)
			f.Fill(data, give, pw, false)
		}
		forms.ExtractXFA(data, pw, false)
	})
	x.do("acroform", func() {
		acroform.ExtractFormSchema(data, pw, false)
		if f, err := acroform.ParseAcroForm(data, enc, false); err == nil && f != nil {
			acroform.ValidateFormData(f, give)
			acroform.ValidateFormSchema(f.ToFormSchema(), give)
			for _, fd := range f.Fields {
				fd.GetFullName()
				fd.ToQuestion()
				acroform.GetFieldAppearance(fd, data, enc, false)
				acroform.FillFieldValue(data, fd, "x", enc, false)
				acroform.FlattenField(data, fd, enc, false)
			}
		}
	})
	x.do("FillForm", func() { acroform.FillForm(data, give, pw, false) })
	x.do("FillFormFieldsWithStreams", func() { acroform.FillFormFieldsWithStreams(data, give, pw, false) })
	if some() {
		x.do("FlattenForm", func() { acroform.FlattenForm(data, pw, false) })
		x.do("ExtractAndFill", func() { acroform.ExtractAndFill(data, give, pw, false) })
		x.do("ReplaceFieldObject", func() {
			acroform.ReplaceFieldObject(data, 5, 0, []byte("<</A 1>>"), enc, false)
			acroform.RebuildObjectStream(data, 1000, []acroform.StreamObjectUpdate{{ObjNum: 5, NewContent: []byte("<</A 1>>")}}, enc, false)
		})
	}
	x.do("xfa", func() {
		s, err := xfa.ExtractAllXFAStreams(data, enc, false)
		xfa.FindXFADatasetsStream(data, enc, false)
		if err == nil && s != nil {
			xfa.RebuildPDFFromXFAStreams(data, s, enc, false)
			xfa.BuildPDFFromXFAStreams(s, false)
		}
		xfa.UpdateXFAInPDF(data, types.FormData{"f1": "new"}, enc, false)
		xfa.ReadObjectFromXRef(data, 5, 0, int64(bytes.LastIndex(data, []byte("xref"))), enc, false)
		xfa.ReplaceStreamInPDF(data, 5, []byte("new"), false)
		write.NewXFABuilder(false).BuildFromOriginal(data, map[string][]byte{"datasets": []byte("<a/>")}, enc)
	})
	x.do("ComparePDFs", func() {
		if res, err := compare.ComparePDFs(data, clean, pw, pw, false); err == nil {
			compare.GenerateReport(res)
			compare.GenerateJSONReport(res)
		}
	})
	if some() {
		o := compare.DefaultCompareOptions()
		o.TextGranularity = []compare.TextGranularity{compare.GranularityElement, compare.GranularityWord, compare.GranularityChar}[r.Intn(3)]
		o.DetectMoves = r.Intn(2) == 0
		x.do("ComparePDFsWithOptions", func() { compare.ComparePDFsWithOptions(clean, data, pw, pw, o) })
	}
	x.do("manipulate", func() {
		m, err := manipulate.NewPDFManipulator(data, pw, false)
		if err != nil {
			return
		}
		m.RotatePage(1, 90)
		m.RotateAllPages(180)
		m.InsertPage(1, 7, []byte("<</Type /Page>>"))
		m.DeletePage(1)
		m.DeletePages([]int{1, 2})
		m.Rebuild()
	})
	x.do("MergePDFs", func() { manipulate.MergePDFs([][]byte{data, clean, data}, [][]byte{pw, pw, pw}, false) })
	x.do("ExtractPages", func() { manipulate.ExtractPages(data, []int{1}, pw, false) })
	if some() {
		x.do("SplitPDF", func() {
			manipulate.SplitPDF(data, []manipulate.PageRange{{Start: 1, End: 1}, {Start: 1, End: 2}}, pw, false)
		})
		x.do("SplitPDFByPageCount", func() {
			if pages < 50 {
				manipulate.SplitPDFByPageCount(data, 1, pw, false)
			} else {
				manipulate.SplitPDFByPageCount(data, pages/4, pw, false)
			}
		})
	}
}

func robShort(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

func robDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	j := i - 60
	if j < 0 {
		j = 0
	}
	cut := func(s string) string {
		if j > len(s) {
			return ""
		}
		return robShort(s[j:])
	}
	return fmt.Sprintf("now ...%s, before ...%s", cut(a), cut(b))
}

func robustTrace(t *T, c *robChild) {
	var tr robTrace
	t.JSON(&tr)
	r := t.R
	if tr.Plan[0].What == "format" {
		robFormat(t, c, tr.Plan[0])
		return
	}
	if tr.Plan[0].What == "shape" {
		robShape(t, c, tr.Plan[0])
		return
	}
	if tr.Plan[0].What == "sweep" {
		robSweep(t, c, tr)
		return
	}
	pages := 2
	crypt := r.Intn(4) == 0
	for _, d := range tr.Plan {
		if d.Piece == "crypt" {
			crypt = true
		}
	}
	d := newRobDoc(r, pages, crypt)
	clean := d.serialise(r)
	later := d.harm(tr.Plan, r)
	data := d.serialise(r)
	for _, x := range later {
		data = robBytes(x.How, rand.New(rand.NewSource(r.Int63()+int64(x.Site))), data)
	}
	x := &robRun{t: t, c: c, data: clean}
	before := x.views(clean, d.pw, pages)
	for _, v := range tr.Views {
		if s, ok := before[v]; (!ok || strings.HasPrefix(s, "error")) && !(v == "packets" && !d.xfa) {
			t.FailBlob("sound", clean, "the document is sound, but %s: %q", v, s)
			return
		}
	}
	x.data = data
	after := x.views(data, d.pw, pages)
	for _, v := range tr.Calm {
		if after[v] != before[v] {
			t.FailBlob("contained:"+strings.TrimRight(v, "0123456789"), data, "damage to %s changes %s: %s", robPlan(tr.Plan), v, robDiff(after[v], before[v]))
		}
		t.Count("views unaffected", 1)
	}
	again := x.views(data, d.pw, pages)
	for v := range after {
		if after[v] != again[v] {
			t.FailBlob("again:"+strings.TrimRight(v, "0123456789"), data, "%s is read differently the second time: %s", v, robDiff(again[v], after[v]))
		}
	}
	x.deeds(clean, d.pw, d.names, pages)
	for _, d := range tr.Plan {
		t.Count("damage: "+d.What+" "+d.How, 1)
	}
	if after["pages"] != "" && !strings.HasPrefix(after["pages"], "error") {
		t.Count("still read", 1)
	}
}

// robSweep damages all values of a piece of a document, each in a copy of it.
func robSweep(t *T, c *robChild, tr robTrace) {
	r := t.R
	plan := tr.Plan[0]
	plan.What = "value"
	crypt := r.Intn(4) == 0
	seed := r.Int63()
	again := func() *rand.Rand { return rand.New(rand.NewSource(seed)) }
	x := &robRun{t: t, c: c}
	var clean []byte
	var before map[string]string
	share := 30
	if t.C.Tier == "thorough" {
		share = 4
	}
	for i := (plan.Site + int(t.C.Seed%robSweeps)) % robSweeps; !t.Failed(); i += robSweeps {
		d := newRobDoc(again(), 2, crypt)
		if clean == nil {
			clean = d.serialise(again())
			x.data = clean
			before = x.views(clean, d.pw, 2)
			d = newRobDoc(again(), 2, crypt)
		}
		d.site = i
		d.harm([]robDamage{plan}, r)
		if d.over {
			break
		}
		data := d.serialise(again())
		x.data = data
		after := x.views(data, d.pw, 2)
		for _, v := range tr.Calm {
			if after[v] != before[v] {
				t.FailBlob("contained:"+strings.TrimRight(v, "0123456789"), data, "damage to %s at %d changes %s: %s", robPlan(tr.Plan), i, v, robDiff(after[v], before[v]))
			}
			t.Count("views unaffected", 1)
		}
		x.skip = func() bool { return r.Intn(share) > 0 }
		x.deeds(clean, d.pw, d.names, 2)
		x.skip = nil
		t.Count("damage: value "+plan.How, 1)
	}
}

// robSweeps is how many behaviours the sites of a piece are shared out over;
// which of them a behaviour gets depends on the seed too.
const robSweeps = 8

func robPlan(p []robDamage) string {
	var o []string
	for _, d := range p {
		o = append(o, fmt.Sprintf("%s (%s %s)", d.Piece, d.What, d.How))
	}
	return strings.Join(o, ", ")
}
