package main

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/benedoc-inc/pdfer/core/encrypt"
	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/forms"
	"github.com/benedoc-inc/pdfer/forms/xfa"
	"github.com/benedoc-inc/pdfer/types"
	"verif/harness/pdfx"
)

// P15: XFA packets and datasets (XFA.tla).

type xfNode struct {
	Kind string `json:"kind"`
	Up   int    `json:"up"`
	Val  int    `json:"val"`
}

type xfStep struct {
	A    string   `json:"a"`
	FD   [][2]int `json:"fd"`
	NS   []string `json:"ns"`
	From int      `json:"from"`
	Tree []xfNode `json:"tree"`
	List []struct {
		N string `json:"n"`
		C int    `json:"c"`
	} `json:"list"`
}

type xfTrace struct {
	Aside []struct {
		Name  int  `json:"name"`
		Val   int  `json:"val"`
		First bool `json:"first"`
	} `json:"aside"`
	Log []xfStep `json:"log"`
}

var xfKnown = []string{"template", "datasets", "config", "localeSet", "connectionSet", "stylesheet", "xmp", "signature", "sourceSet"}

type xfDoc struct {
	t      *T
	r      *rand.Rand
	tr     *xfTrace
	d      *genDoc
	data   []byte
	pw     []byte
	crypt  bool
	fields map[int]string // names of fields
	groups map[int]string
	texts  []string // values
	typed  []interface{}
	body   map[string][]byte // contents by name and identity
	text   string            // the datasets' text
	order  []string          // of the packets
	hybrid bool              // the form has ordinary fields as well
}

// xmlSafe leaves out what XML cannot hold.
func xmlSafe(s string) string {
	return strings.Map(func(c rune) rune {
		if c == '\t' || c == '\n' || c == '\r' || c >= 0x20 && c <= 0xd7ff || c >= 0xe000 && c <= 0xfffd && c != utf8.RuneError || c >= 0x10000 {
			return c
		}
		return -1
	}, s)
}

func xfText(r *rand.Rand) (string, interface{}) {
	switch r.Intn(9) {
	case 0:
		n := r.Intn(4000) - 2000
		return strconv.Itoa(n), n
	case 1:
		x, s := randNum(r)
		return s, x
	case 2:
		b := r.Intn(2) == 0
		return strconv.FormatBool(b), b
	case 3:
		s := []string{"007", "1.0", "+5", "1e3", "-0", "0x1F", "TRUE", "True", "t", "F", "NaN", "Inf", "1_000", "0", "1", ".5", "5.", "00", "1,5", "99999999999999999999", "0.1", "9007199254740993", "16777217.0"}[r.Intn(23)]
		return s, s
	case 4:
		s := []string{" padded ", "\ttab", "line\nline", "cr\rlf\r\n", " ", "\n", "a  b", "trailing\n"}[r.Intn(8)]
		return s, s
	case 5:
		s := []string{"<value>x</value>", "&amp;", "a & b < c > d \"e\" 'f'", "]]>", "<![CDATA[x]]>", "<!-- c -->", "</field>", "$1 ${name} \\1", "&#65;", "?>", "%s%d"}[r.Intn(11)]
		return s, s
	}
	s := xmlSafe(randText(r))
	return s, s
}

// esc writes text as XML.
func xfEsc(r *rand.Rand, s string, attr bool) string {
	var b strings.Builder
	if !attr && r.Intn(6) == 0 && !strings.ContainsAny(s, "\r") {
		return "<![CDATA[" + strings.ReplaceAll(s, "]]>", "]]]]><![CDATA[>") + "]]>"
	}
	for _, c := range s {
		switch {
		case c == '<':
			b.WriteString("&lt;")
		case c == '&':
			b.WriteString([]string{"&amp;", "&#38;", "&#x26;"}[r.Intn(3)])
		case c == '>':
			b.WriteString("&gt;")
		case c == '"':
			b.WriteString("&quot;")
		case c == '\'' && (attr || r.Intn(2) == 0):
			b.WriteString("&apos;")
		case c == '\r' || attr && (c == '\n' || c == '\t'):
			fmt.Fprintf(&b, "&#%d;", c)
		case r.Intn(40) == 0:
			fmt.Fprintf(&b, "&#x%X;", c)
		default:
			b.WriteRune(c)
		}
		if !attr && r.Intn(60) == 0 {
			b.WriteString("<!-- " + []string{"note", "<value>1</value>"}[r.Intn(2)] + " -->")
		}
	}
	return b.String()
}

// render gives the text of datasets.
func (x *xfDoc) render(tree []xfNode, aside bool) string {
	r := x.r
	var b strings.Builder
	pretty := r.Intn(2) == 0
	nl := func() {
		if pretty {
			b.WriteString("\n" + strings.Repeat(" ", r.Intn(6)))
		}
	}
	noise := func() {
		nl()
		if r.Intn(8) > 0 {
			return
		}
		f := x.fields[1+r.Intn(4)]
		safe := xfEsc(r, strings.ReplaceAll(f, "--", ""), true)
		switch r.Intn(4) {
		case 0:
			fmt.Fprintf(&b, "<!-- <field name=\"%s\"><value>old</value></field> -->", strings.ReplaceAll(safe, "--", ""))
		case 1:
			fmt.Fprintf(&b, "<?xfa <field name=\"a\"><value>?>")
		case 2:
			fmt.Fprintf(&b, "<!-- data field value -->")
		case 3:
			fmt.Fprintf(&b, "<items><text>&lt;value&gt;</text></items>")
		}
		nl()
	}
	field := func(i, val int, name string) {
		noise()
		q := []string{"\"", "'"}[r.Intn(2)]
		attrs := []string{" name=" + q + xfEsc(r, name, true) + q}
		for _, a := range []string{` access="open"`, ` xfa:name="other"`, ` title='name="x"'`, ` id="f&gt;1"`} {
			if r.Intn(8) == 0 {
				attrs = append(attrs, a)
			}
		}
		r.Shuffle(len(attrs), func(i, j int) { attrs[i], attrs[j] = attrs[j], attrs[i] })
		open := "<field" + strings.Join(attrs, "") + []string{"", " ", "\n"}[r.Intn(3)]
		beside := ""
		if r.Intn(6) == 0 {
			beside = []string{"<caption><value>Caption</value></caption>", "<items><text>one</text><text>two</text></items>", "<!-- <value>no</value> -->", "<assist><toolTip>value</toolTip></assist>"}[r.Intn(4)]
		}
		if val == -1 && beside == "" && r.Intn(2) == 0 {
			b.WriteString(open + "/>")
			return
		}
		b.WriteString(open + ">")
		first := r.Intn(2) == 0
		nl()
		if first {
			b.WriteString(beside)
			nl()
		}
		if val >= 0 {
			s := ""
			if val > 0 {
				s = xfEsc(r, x.texts[val], false)
			}
			switch {
			case val == 0 && r.Intn(2) == 0:
				b.WriteString("<value/>")
			case r.Intn(6) == 0:
				b.WriteString("<value><text>" + s + "</text></value>")
			default:
				b.WriteString("<value" + []string{"", " ", ` override="0"`}[r.Intn(3)] + ">" + s + "</value>")
			}
			nl()
		}
		if !first {
			b.WriteString(beside)
			nl()
		}
		b.WriteString("</field>")
	}
	pre := []string{"", "xfa:"}[r.Intn(2)]
	ns := ` xmlns:xfa="http://www.xfa.org/schema/xfa-data/1.0/"`
	if r.Intn(4) == 0 {
		b.WriteString(`<?xml version="1.0" encoding="UTF-8"?>` + []string{"", "\n"}[r.Intn(2)])
	}
	b.WriteString("<" + pre + "datasets" + ns + ">")
	beside := func(first bool) {
		any := false
		for _, a := range x.tr.Aside {
			if !aside || a.First != first {
				continue
			}
			if !any {
				b.WriteString(`<dd:dataDescription xmlns:dd="http://ns.adobe.com/data-description/" dd:name="data">`)
				any = true
			}
			field(0, a.Val, x.fields[a.Name])
		}
		if any {
			b.WriteString("</dd:dataDescription>")
			nl()
		}
	}
	beside(true)
	b.WriteString("<" + pre + "data>")
	var walk func(up int)
	walk = func(up int) {
		for i, n := range tree {
			if n.Up != up {
				continue
			}
			if n.Kind == "field" {
				field(i+1, n.Val, x.fields[i+1])
				continue
			}
			noise()
			g := x.groups[i+1]
			b.WriteString("<" + g + []string{"", " ", ` xfa:dataNode="dataGroup"`}[r.Intn(3)] + ">")
			walk(i + 1)
			nl()
			b.WriteString("</" + g + ">")
		}
	}
	walk(0)
	noise()
	b.WriteString("</" + pre + "data>")
	nl()
	beside(false)
	b.WriteString("</" + pre + "datasets>" + []string{"", "\n"}[r.Intn(2)])
	return b.String()
}

// content is what a packet with this identity holds.
func (x *xfDoc) content(name string, id int) []byte {
	k := fmt.Sprint(name, id)
	if b, ok := x.body[k]; ok {
		return b
	}
	r := x.r
	var b []byte
	switch {
	case name == "preamble":
		b = []byte(fmt.Sprintf(`<xdp:xdp xmlns:xdp="http://ns.adobe.com/xdp/" uuid="%d">`, id))
	case name == "postamble":
		b = []byte("</xdp:xdp>")
	case name == "template":
		b = []byte(fmt.Sprintf(`<template xmlns="http://www.xfa.org/schema/xfa-template/3.3/"><subform name="form%d"><field name="a"><ui><textEdit/></ui></field>%s</subform></template>`, id, strings.Repeat("<draw/>", r.Intn(30))))
	case r.Intn(4) == 0:
		b = make([]byte, 1+r.Intn(3000))
		r.Read(b)
	default:
		b = []byte(fmt.Sprintf("%s<%s id=\"%d\">%s</%s>%s", []string{"", "\n", " "}[r.Intn(3)], name, id, strings.Repeat("<x>ä</x>", r.Intn(50)), name, []string{"", "\n", "\r", "\r\n", "\n\n"}[r.Intn(5)]))
	}
	x.body[k] = b
	return b
}

func (x *xfDoc) filtered(b []byte) *pdfx.Stream {
	r := x.r
	s := &pdfx.Stream{D: pdfx.Dict{}, Raw: append([]byte(nil), b...)}
	var fs pdfx.Arr
	for i := []int{0, 1, 1, 2, 3}[r.Intn(5)]; i > 0; i-- {
		switch r.Intn(5) {
		case 0, 1:
			s.Raw = pdfx.Deflate(s.Raw)
			fs = append(pdfx.Arr{pdfx.Name("FlateDecode")}, fs...)
		case 2:
			s.Raw = []byte(fmt.Sprintf("%x>", s.Raw))
			fs = append(pdfx.Arr{pdfx.Name("ASCIIHexDecode")}, fs...)
		case 3:
			s.Raw = pdfx.A85Enc(s.Raw, "", r)
			fs = append(pdfx.Arr{pdfx.Name("ASCII85Decode")}, fs...)
		case 4:
			s.Raw = pdfx.RLEnc(s.Raw, "", r)
			fs = append(pdfx.Arr{pdfx.Name("RunLengthDecode")}, fs...)
		}
	}
	switch {
	case len(fs) == 1 && r.Intn(2) == 0:
		s.D["Filter"] = fs[0]
		if r.Intn(4) == 0 && fs[0] == pdfx.Name("FlateDecode") {
			s.Raw = pdfx.Deflate(pdfx.PredEncode(b, 5, 1, func(int) byte { return byte(r.Intn(5)) }))
			s.D["DecodeParms"] = pdfx.Dict{"Predictor": 15, "Columns": 5}
			if len(b)%5 != 0 {
				s.Raw = pdfx.Deflate(b)
				delete(s.D, "DecodeParms")
			}
		}
	case len(fs) > 0:
		s.D["Filter"] = fs
		if r.Intn(4) == 0 {
			p := pdfx.Arr{}
			for range fs {
				p = append(p, pdfx.Null{})
			}
			s.D["DecodeParms"] = p
		}
	}
	if r.Intn(3) == 0 {
		s.D["Type"] = pdfx.Name("EmbeddedFile")
		s.D["Note"] = pdfx.Str("(/Filter)")
	}
	return s
}

func (x *xfDoc) build() {
	r, tr := x.r, x.tr
	first := tr.Log[0]
	pages := 1 + r.Intn(3)
	st := &specTree{}
	var top []interface{}
	for i := 1; i <= pages; i++ {
		top = append(top, float64(i))
	}
	st.Kids = [][2]interface{}{{float64(treeRoot), top}}
	d := genTreeDoc(r, st, treeOpts{gens: true, decoys: r.Intn(3) == 0, tag: "xfa"})
	x.d = d
	if r.Intn(3) == 0 {
		d.pw = []byte([]string{"", "secret"}[r.Intn(2)])
		d.crypt = newCrypt(r, handlerCfg(r, []string{"R2", "R3", "R4rc4", "R4aes", "R5", "R6"}[r.Intn(6)]), d.pw, []byte("owner"))
		x.t.Count("encrypted", 1)
		x.crypt, x.pw = true, d.pw
	}
	maybe := func(v pdfx.Val, k int) pdfx.Val {
		if r.Intn(k) == 0 {
			return d.add(v)
		}
		return v
	}
	arr := pdfx.Arr{}
	for _, p := range first.List {
		var b []byte
		if p.N == "datasets" {
			x.text = x.render(first.Tree, true)
			b = []byte(x.text)
		} else {
			b = x.content(p.N, p.C)
		}
		arr = append(arr, maybe(textStr(r, p.N), 12), d.add(x.filtered(b)))
	}
	form := pdfx.Dict{"Fields": pdfx.Arr{}, "XFA": maybe(arr, 2), "DA": pdfx.Str("/Helv 0 Tf")}
	if r.Intn(4) == 0 {
		x.hybrid = true
		form["Fields"] = pdfx.Arr{d.add(pdfx.Dict{"FT": pdfx.Name("Tx"), "T": pdfx.Str("XFA"), "V": pdfx.Str("/XFA [1 0 R]")})}
	}
	if r.Intn(3) == 0 {
		form["NeedAppearances"] = true
		form["AXFA"] = pdfx.Arr{pdfx.Str("datasets"), 1}
	}
	cat := d.objs[d.root.N].(pdfx.Dict)
	cat["AcroForm"] = maybe(form, 2)
	if r.Intn(3) == 0 { // not in use
		d.add(pdfx.Dict{"XFA": pdfx.Arr{pdfx.Str("datasets"), d.add(x.filtered([]byte("<xfa:datasets/>")))}})
		cat["AAA"] = pdfx.Str("/AcroForm << /XFA [(datasets) 1 0 R] >>")
	}
	x.data = d.serialise(r)
}

func (x *xfDoc) open(data []byte) *pdfx.File {
	f, err := pdfx.ReadFile(data)
	if err == nil && x.crypt {
		_, err = f.Unlock(x.pw)
	}
	if err == nil {
		err = f.CheckAll()
	}
	var ps []pdfx.Page
	if err == nil {
		if ps, err = f.Pages(); err == nil && len(ps) == 0 {
			err = fmt.Errorf("no pages")
		}
	}
	if err == nil && (f.Trailer["Encrypt"] != nil) != x.crypt {
		err = fmt.Errorf("encrypted: %v, should be %v", !x.crypt, x.crypt)
	}
	if err != nil {
		x.t.FailBlob("invalid", data, "the document is not valid: %v", err)
		return nil
	}
	return f
}

type xfPacket struct {
	name string
	obj  int
	filt bool
	data []byte
}

// packets reads the list of packets, and what holds it.
func xfPackets(f *pdfx.File) (ps []xfPacket, holder int, err error) {
	root, _ := f.Trailer["Root"].(pdfx.Ref)
	holder = root.N
	follow := func(v pdfx.Val) pdfx.Val {
		for {
			r, ok := v.(pdfx.Ref)
			if !ok {
				return v
			}
			holder = r.N
			v, _ = f.Get(r.N)
		}
	}
	cat, _ := follow(root).(pdfx.Dict)
	form, _ := follow(cat["AcroForm"]).(pdfx.Dict)
	arr, ok := follow(form["XFA"]).(pdfx.Arr)
	if !ok || len(arr)%2 != 0 {
		return nil, 0, fmt.Errorf("XFA is %s", pdfx.Canon(form["XFA"]))
	}
	for i := 0; i < len(arr); i += 2 {
		nv, _ := f.Deref(arr[i])
		s, _ := nv.(pdfx.Str)
		name, _ := pdfx.TextOf(s)
		ref, _ := arr[i+1].(pdfx.Ref)
		v, err := f.Get(ref.N)
		st, ok := v.(*pdfx.Stream)
		if err != nil || !ok {
			return nil, 0, fmt.Errorf("packet %q is %T (%v)", name, v, err)
		}
		b, err := st.Decode()
		if err != nil {
			return nil, 0, fmt.Errorf("packet %q: %v", name, err)
		}
		ps = append(ps, xfPacket{name, ref.N, st.D["Filter"] != nil, b})
	}
	return ps, holder, nil
}

// info unlocks the document for the library.
func (x *xfDoc) info() (*types.PDFEncryption, error) {
	if !x.crypt {
		return nil, nil
	}
	_, info, err := encrypt.DecryptPDF(x.data, x.pw, false)
	return info, err
}

// xfCanon renders data as a tree whose order does not matter.
func (x *xfDoc) canon(tree []xfNode) string {
	var walk func(up int) string
	walk = func(up int) string {
		var l []string
		for i, n := range tree {
			if n.Up != up {
				continue
			}
			if n.Kind == "field" {
				v := ""
				if n.Val > 0 {
					v = x.texts[n.Val]
				}
				l = append(l, fmt.Sprintf("%q=%q", x.fields[i+1], v))
			} else {
				l = append(l, x.groups[i+1]+walk(i+1))
			}
		}
		sort.Strings(l)
		return "{" + strings.Join(l, " ") + "}"
	}
	return walk(0)
}

func xfString(v interface{}) string {
	switch v := v.(type) {
	case nil:
		return ""
	case float64:
		return strconv.FormatFloat(v, 'f', -1, 64)
	}
	return fmt.Sprint(v)
}

func xfLib(fields map[string]interface{}, groups []types.XFAFieldGroup) string {
	var l []string
	for n, v := range fields {
		l = append(l, fmt.Sprintf("%q=%q", n, xfString(v)))
	}
	for _, g := range groups {
		l = append(l, g.Name+xfLib(g.Fields, g.Groups))
	}
	sort.Strings(l)
	return "{" + strings.Join(l, " ") + "}"
}

// xfElem is an element.
type xfElem struct {
	name string
	attr map[string]string
	kids []*xfElem
	text string // of its own
	deep string // and of what is inside
	out  []string
}

// xfParse reads XML strictly.
func xfParse(text string) (root *xfElem, err error) {
	d := xml.NewDecoder(strings.NewReader(text))
	root = &xfElem{}
	open := []*xfElem{root}
	for {
		tok, err := d.Token()
		if err == io.EOF {
			if len(open) > 1 || len(root.kids) != 1 {
				return nil, fmt.Errorf("%d root elements", len(root.kids))
			}
			return root.kids[0], nil
		}
		if err != nil {
			return nil, err
		}
		top := open[len(open)-1]
		switch tok := tok.(type) {
		case xml.StartElement:
			e := &xfElem{name: tok.Name.Local, attr: map[string]string{}}
			for _, a := range tok.Attr {
				k := a.Name.Local
				if a.Name.Space != "" {
					k = a.Name.Space + " " + k
				}
				e.attr[k] = a.Value
			}
			top.kids = append(top.kids, e)
			open = append(open, e)
		case xml.EndElement:
			open = open[:len(open)-1]
		case xml.CharData:
			top.text += string(tok)
			for _, e := range open {
				e.deep += string(tok)
			}
		}
	}
}

// xfRead reads the data of datasets by itself.
func xfRead(text string) (string, error) {
	root, err := xfParse(text)
	if err != nil {
		return "", err
	}
	var walk func(e *xfElem) string
	walk = func(e *xfElem) string {
		var l []string
		for _, k := range e.kids {
			switch k.name {
			case "field":
				v := ""
				for _, c := range k.kids {
					if c.name == "value" {
						v += c.deep
					}
				}
				l = append(l, fmt.Sprintf("%q=%q", k.attr["name"], v))
			case "items":
			default:
				l = append(l, k.name+walk(k))
			}
		}
		sort.Strings(l)
		return "{" + strings.Join(l, " ") + "}"
	}
	if root.name == "data" {
		return walk(root), nil
	}
	for _, k := range root.kids {
		if k.name == "data" {
			return walk(k), nil
		}
	}
	return "", fmt.Errorf("no data")
}

// xfSkeleton renders all of a text but the values of the fields of its data that are given new ones.
func xfSkeleton(text string, fd map[string]bool) (string, error) {
	root, err := xfParse(text)
	if err != nil {
		return "", err
	}
	var b strings.Builder
	var walk func(e *xfElem, data, filled bool)
	walk = func(e *xfElem, data, filled bool) {
		if filled && e.name == "value" {
			return
		}
		var as []string
		for k, v := range e.attr {
			as = append(as, fmt.Sprintf("%s=%q", k, v))
		}
		sort.Strings(as)
		data = data || e.name == "data"
		filled = data && e.name == "field" && fd[e.attr["name"]]
		fmt.Fprintf(&b, "<%s %s>", e.name, strings.Join(as, " "))
		if strings.TrimSpace(e.text) != "" || e.name == "value" || e.name == "text" {
			fmt.Fprintf(&b, "%q", e.text)
		}
		for _, k := range e.kids {
			walk(k, data, filled)
		}
		b.WriteString("</>")
	}
	walk(root, root.name == "data", false)
	return b.String(), nil
}

// xfMarks counts comments and instructions outside of fields that are filled.
func xfMarks(text string, fd map[string]bool) string {
	d := xml.NewDecoder(strings.NewReader(text))
	var o []string
	depth, skip := 0, 0
	for {
		tok, err := d.Token()
		if err != nil {
			return strings.Join(o, "|")
		}
		switch tok := tok.(type) {
		case xml.StartElement:
			depth++
			if skip == 0 && tok.Name.Local == "field" {
				for _, a := range tok.Attr {
					if a.Name.Local == "name" && a.Name.Space == "" && fd[a.Value] {
						skip = depth
					}
				}
			}
		case xml.EndElement:
			if depth == skip {
				skip = 0
			}
			depth--
		case xml.Comment:
			if skip == 0 {
				o = append(o, string(tok))
			}
		case xml.ProcInst:
			if skip == 0 {
				o = append(o, tok.Target+" "+string(tok.Inst))
			}
		}
	}
}

// given is the form data of a step.
func (x *xfDoc) given(st *xfStep) (types.FormData, map[string]bool) {
	data, fd := types.FormData{}, map[string]bool{}
	for _, p := range st.FD {
		n := x.fields[p[0]]
		fd[n] = true
		switch {
		case p[1] == 0 && x.r.Intn(2) == 0:
			data[n] = nil
		case p[1] == 0:
			data[n] = ""
		case x.r.Intn(2) == 0:
			data[n] = x.typed[p[1]]
		default:
			data[n] = x.texts[p[1]]
		}
	}
	for i := x.r.Intn(3); i > 0; i-- {
		data[fmt.Sprintf("nowhere%d", i)] = "x"
	}
	return data, fd
}

func xfSlot(s *xfa.XFAStreams, name string) **xfa.XFAStreamInfo {
	return map[string]**xfa.XFAStreamInfo{"template": &s.Template, "datasets": &s.Datasets, "config": &s.Config, "localeSet": &s.LocaleSet, "connectionSet": &s.ConnectionSet,
		"stylesheet": &s.Stylesheet, "xmp": &s.XMP, "signature": &s.Signature, "sourceSet": &s.SourceSet}[name]
}

// fill lets the library fill the form; ok if the form has datasets.
func (x *xfDoc) fill(data types.FormData) (out []byte, err error) {
	info, err := x.info()
	if err != nil {
		return nil, err
	}
	switch k := x.r.Intn(4); {
	case k == 0 && !x.hybrid && x.has("template"):
		fm, err := forms.Extract(x.data, x.pw, false)
		if err != nil {
			return nil, err
		}
		if fm.Type() != forms.FormTypeXFA {
			return nil, fmt.Errorf("form of type %q", fm.Type())
		}
		return fm.Fill(x.data, data, [][]byte{x.pw, nil}[x.r.Intn(2)], false)
	case k == 1:
		b, _, err := xfa.FindXFADatasetsStream(x.data, info, false)
		if err != nil {
			return nil, err
		}
		s, err := xfa.UpdateXFAValues(string(b), data, false)
		if err != nil {
			return nil, err
		}
		return xfa.RebuildPDFFromXFAStreams(x.data, &xfa.XFAStreams{Datasets: &xfa.XFAStreamInfo{Data: []byte(s)}}, info, false)
	}
	return xfa.UpdateXFAInPDF(x.data, data, info, false)
}

func (x *xfDoc) has(name string) bool {
	for _, p := range x.now().List {
		if p.N == name {
			return true
		}
	}
	return false
}

func (x *xfDoc) now() *xfStep { return &x.tr.Log[x.t.Steps] }

// values gives data to the library's serialiser.
func (x *xfDoc) values(tree []xfNode) *types.XFADatasets {
	var walk func(up int) (map[string]interface{}, []types.XFAFieldGroup)
	walk = func(up int) (map[string]interface{}, []types.XFAFieldGroup) {
		fs, gs := map[string]interface{}{}, []types.XFAFieldGroup(nil)
		for i, n := range tree {
			switch {
			case n.Up != up:
			case n.Kind == "field":
				fs[x.fields[i+1]] = ""
				if n.Val > 0 {
					fs[x.fields[i+1]] = []interface{}{x.texts[n.Val], x.typed[n.Val]}[x.r.Intn(2)]
				}
			default:
				f, g := walk(i + 1)
				gs = append(gs, types.XFAFieldGroup{Name: x.groups[i+1], Fields: f, Groups: g})
			}
		}
		return fs, gs
	}
	f, g := walk(0)
	return &types.XFADatasets{Fields: f, Groups: g}
}

func init() { props["P15"] = xfaProp }

func xfaProp(t *T) {
	var tr xfTrace
	t.JSON(&tr)
	r := t.R
	x := &xfDoc{t: t, r: r, tr: &tr, fields: map[int]string{}, groups: map[int]string{}, body: map[string][]byte{}}
	used := map[string]bool{"nowhere1": true, "nowhere2": true, "other": true}
	for i := 1; i <= 60; i++ {
		for {
			s := []string{"f" + strconv.Itoa(i), "name", "value", "field", "data", "a b", "<x>", "a&b", "x\"y'", "Größe", "form1[0].#subform[0].Name[0]", "中", "]]>", "f.1", "$1"}[r.Intn(15)]
			if r.Intn(6) == 0 {
				s = xmlSafe(randText(r))
			}
			if s != "" && !used[s] {
				used[s] = true
				x.fields[i] = s
				break
			}
			if r.Intn(2) == 0 {
				used[x.fields[i]] = true
			}
		}
		x.groups[i] = []string{"form1", "Address", "größe", "a.b-c_d", "subform", "g" + strconv.Itoa(i), "Page1", "fields", "dataset"}[r.Intn(9)]
	}
	x.texts, x.typed = []string{""}, []interface{}{""}
	for i := 1; i <= 8; i++ {
		for {
			s, v := xfText(r)
			if s != "" {
				x.texts, x.typed = append(x.texts, s), append(x.typed, v)
				break
			}
		}
	}
	t.Do("build", nil, x.build)
	if t.Failed() {
		return
	}
	x.check(nil, nil)
	texts := []string{}
	hold := []bool{}
	for i := 1; i < len(tr.Log) && !t.Failed(); i++ {
		st := &tr.Log[i]
		before := x.data
		keep := append([]byte(nil), before...)
		texts, hold = append(texts, x.text), append(hold, x.has("datasets"))
		old := x.open(before)
		if old == nil {
			return
		}
		oldText := x.text
		var out []byte
		var err error
		var fd map[string]bool
		var want []byte // the datasets
		what := fmt.Sprintf("step %d, %s %v", i, st.A, st.NS)
		t.Do(st.A, before, func() {
			switch st.A {
			case "fill":
				var data types.FormData
				data, fd = x.given(st)
				what = fmt.Sprintf("step %d, filling %q", i, data)
				out, err = x.fill(data)
			case "rebuild":
				var info *types.PDFEncryption
				if info, err = x.info(); err != nil {
					return
				}
				ns := map[string]bool{}
				m := map[string][]byte{}
				for _, n := range st.NS {
					ns[n] = true
					if n != "datasets" {
						m[n] = x.content(n, st.id(n))
						continue
					}
					prev := &tr.Log[i-1]
					if st.From > 0 && hold[st.From-1] && r.Intn(4) > 0 {
						want = []byte(texts[st.From-1])
					} else if st.From > 0 {
						want = []byte(x.render(st.Tree, true))
					} else {
						ds := x.values(prev.Tree)
						if x.has("datasets") && r.Intn(2) == 0 {
							if ds, err = xfa.ParseXFADatasets(x.text, false); err != nil {
								return
							}
						}
						var s string
						if s, err = xfa.DatasetsToXFA(ds, false); err != nil {
							return
						}
						want = []byte(s)
					}
					m[n] = want
				}
				if r.Intn(3) == 0 {
					out, err = write.NewXFABuilder(false).BuildFromOriginal(x.data, m, info)
					return
				}
				s := &xfa.XFAStreams{}
				if r.Intn(3) == 0 && len(tr.Log[i-1].List) > 0 {
					if s, err = xfa.ExtractAllXFAStreams(x.data, info, false); err != nil {
						return
					}
				}
				for n, b := range m {
					*xfSlot(s, n) = &xfa.XFAStreamInfo{Data: b}
				}
				out, err = xfa.RebuildPDFFromXFAStreams(x.data, s, info, false)
			case "build":
				var info *types.PDFEncryption
				if info, err = x.info(); err != nil {
					return
				}
				var s *xfa.XFAStreams
				if s, err = xfa.ExtractAllXFAStreams(x.data, info, false); err != nil {
					return
				}
				in := map[string]bool{}
				for _, n := range st.NS {
					in[n] = true
				}
				var l []write.XFAStreamData
				for _, n := range xfKnown {
					if !in[n] {
						*xfSlot(s, n) = nil
					} else if p := *xfSlot(s, n); p != nil {
						l = append(l, write.XFAStreamData{Name: n, Data: p.Data, Compress: r.Intn(2) == 0})
					}
				}
				if r.Intn(3) == 0 {
					out, err = write.NewXFABuilder(false).BuildFromXFA(l)
				} else {
					out, err = xfa.BuildPDFFromXFAStreams(s, false)
				}
			}
		})
		if t.Failed() {
			return
		}
		if err != nil {
			t.FailBlob(st.A, before, "%s: %v", what, err)
			return
		}
		if !bytes.Equal(keep, before) {
			t.FailBlob("input", keep, "%s: the document given was written to", what)
			return
		}
		x.data = out
		t.Steps = i
		if want != nil {
			x.text = string(want)
		}
		if st.A == "build" {
			x.crypt, x.pw, x.hybrid = false, nil, false
			old = nil
		}
		if st.A == "fill" {
			f := x.open(out)
			if f == nil {
				return
			}
			ps, _, err := xfPackets(f)
			for _, p := range ps {
				if p.name == "datasets" {
					x.text = string(p.data)
				}
			}
			s1, err1 := xfSkeleton(oldText, fd)
			s2, err2 := xfSkeleton(x.text, fd)
			if err != nil || err1 != nil || err2 != nil {
				t.FailBlob("xml", []byte(oldText+"\n--- after ---\n"+x.text), "%s: %v %v %v", what, err, err1, err2)
				return
			}
			if s1 != s2 || xfMarks(oldText, fd) != xfMarks(x.text, fd) {
				t.FailBlob("beside", []byte(oldText+"\n--- after ---\n"+x.text), "%s: the datasets changed beside the fields filled", what)
				return
			}
		}
		x.check(old, st)
	}
}

func (s *xfStep) id(n string) int {
	for _, p := range s.List {
		if p.N == n {
			return p.C
		}
	}
	return 0
}

// check compares the document with the current state; old is the document before the step.
func (x *xfDoc) check(old *pdfx.File, st *xfStep) {
	t, now := x.t, x.now()
	f := x.open(x.data)
	if f == nil {
		return
	}
	ps, _, err := xfPackets(f)
	if err != nil {
		t.FailBlob("packets", x.data, "step %d: %v", t.Steps, err)
		return
	}
	// the packets, in order where it is told
	want := map[string][]byte{}
	var wantOrder, order []string
	before := map[string]bool{}
	if t.Steps > 0 {
		for _, p := range x.tr.Log[t.Steps-1].List {
			before[p.N] = true
		}
	}
	for _, p := range now.List {
		if p.N == "datasets" {
			want[p.N] = []byte(x.text)
		} else {
			want[p.N] = x.content(p.N, p.C)
		}
		if t.Steps == 0 || now.A == "build" {
			wantOrder = append(wantOrder, p.N)
		}
	}
	// packets added come in any order, but before the end
	if wantOrder == nil {
		wantOrder = x.order
	}
	x.order = nil
	for _, p := range ps {
		b, ok := want[p.name]
		if !ok || !bytes.Equal(b, p.data) {
			t.FailBlob("content", x.data, "step %d, %s: packet %q (known: %v) holds %.200q, should hold %.200q", t.Steps, now.A, p.name, ok, p.data, b)
			return
		}
		if t.Steps == 0 || before[p.name] {
			order = append(order, p.name)
		}
		x.order = append(x.order, p.name)
	}
	if len(ps) != len(want) || strings.Join(order, " ") != strings.Join(wantOrder, " ") || want["postamble"] != nil && ps[len(ps)-1].name != "postamble" {
		t.FailBlob("packets", x.data, "step %d, %s %v: packets are %v (of %d), should be %v (of %d)", t.Steps, now.A, now.NS, order, len(ps), wantOrder, len(want))
		return
	}
	if b, ok := want["datasets"]; ok {
		got, err := xfRead(string(b))
		if w := x.canon(now.Tree); err != nil || got != w {
			t.FailBlob("data", b, "step %d, %s: the data is %s (%v), should be %s", t.Steps, now.A, got, err, w)
			return
		}
		t.Count("data", 1)
	}
	if old != nil && st != nil {
		x.frame(old, f, st)
	}
	x.library(now, ps)
}

// library compares what the library reads.
func (x *xfDoc) library(now *xfStep, ps []xfPacket) {
	t := x.t
	copied := append([]byte(nil), x.data...)
	t.Do("read", copied, func() {
		fail := func(key, f string, a ...interface{}) {
			t.FailBlob(key, x.data, "step %d, %s: %s", t.Steps, now.A, fmt.Sprintf(f, a...))
		}
		info, err := x.info()
		if err != nil {
			fail("unlock", "%v", err)
			return
		}
		s, err := xfa.ExtractAllXFAStreams(x.data, info, false)
		if err != nil {
			fail("extract", "%v", err)
			return
		}
		in := map[string]xfPacket{}
		for _, p := range ps {
			in[p.name] = p
		}
		for _, n := range xfKnown {
			got, p := *xfSlot(s, n), in[n]
			if (got != nil) != (p.name != "") || got != nil && (!bytes.Equal(got.Data, p.data) || got.ObjectNumber != p.obj || got.Compressed != p.filt) {
				fail("extract", "packet %q (there: %v) is extracted as %+v", n, p.name != "", got)
				return
			}
		}
		b, obj, err := xfa.FindXFADatasetsStream(x.data, info, false)
		if p := in["datasets"]; (err == nil) != (p.name != "") || err == nil && (!bytes.Equal(b, p.data) || obj != p.obj) {
			fail("find", "datasets (there: %v) are found as %q in %d, %v", p.name != "", b, obj, err)
			return
		}
		ds := (*types.XFADatasets)(nil)
		if in["datasets"].name != "" {
			if ds, err = xfa.ParseXFADatasets(string(b), false); err != nil {
				fail("parse", "%v", err)
				return
			}
			if got, want := xfLib(ds.Fields, ds.Groups), x.canon(now.Tree); got != want {
				t.FailBlob("parse", b, "step %d, %s: the library reads %s, should read %s", t.Steps, now.A, got, want)
				return
			}
		}
		if x.hybrid || t.Steps > 0 && x.r.Intn(3) > 0 {
			return
		}
		typ, err := forms.Detect(x.data, x.pw, false)
		if in["template"].name == "" {
			if err == nil {
				fail("detect", "a form without a template is of type %q", typ)
			}
			return
		}
		if err != nil || typ != forms.FormTypeXFA {
			fail("detect", "type %q, %v", typ, err)
			return
		}
		fm, err := forms.Extract(x.data, x.pw, false)
		if err != nil {
			fail("form", "%v", err)
			return
		}
		got := fm.GetValues()
		want := map[string]string{}
		if ds != nil {
			for i, n := range now.Tree {
				if n.Kind == "field" {
					want[x.fields[i+1]] = x.texts[max(n.Val, 0)]
				}
			}
		}
		ok := len(got) == len(want)
		for n, v := range want {
			g, in := got[n]
			ok = ok && in && xfString(g) == v
		}
		if !ok {
			fail("values", "the form's values are %q, should be %q", got, want)
		}
		schema, ds2, err := forms.ExtractXFA(x.data, x.pw, false)
		if err != nil || schema == nil || (ds2 == nil) != (ds == nil) || ds != nil && xfLib(ds2.Fields, ds2.Groups) != xfLib(ds.Fields, ds.Groups) {
			fail("form", "ExtractXFA: %v %v", ds2, err)
		}
	})
	if !bytes.Equal(copied, x.data) {
		t.FailBlob("input", copied, "reading wrote to the document")
	}
}

// frame checks that a step changed only what it had to.
func (x *xfDoc) frame(old, f *pdfx.File, st *xfStep) {
	t := x.t
	fail := func(key, m string, a ...interface{}) {
		t.FailBlob(key, x.data, "step %d, %s %v: %s", t.Steps, st.A, st.NS, fmt.Sprintf(m, a...))
	}
	op, holder, err := xfPackets(old)
	if err != nil {
		fail("frame", "%v", err)
		return
	}
	np, _, err := xfPackets(f)
	if err != nil {
		fail("frame", "%v", err)
		return
	}
	target := map[string]bool{"datasets": st.A == "fill"}
	for _, n := range st.NS {
		target[n] = true
	}
	added := map[int]bool{}
	streams := map[int]bool{}
	objs := map[string]int{}
	for _, p := range op {
		objs[p.name] = p.obj
		streams[p.obj] = true
	}
	for _, p := range np {
		if n, ok := objs[p.name]; !ok {
			added[p.obj] = true
		} else if n != p.obj && !target[p.name] {
			fail("frame", "packet %q moved from object %d to %d", p.name, n, p.obj)
			return
		}
	}
	strip := func(v pdfx.Val, n int) string {
		switch v := v.(type) {
		case *pdfx.Stream:
			d := pdfx.Dict{}
			for k, e := range v.D {
				if k != "Filter" && k != "DecodeParms" && k != "Length" && k != "DL" {
					d[k] = e
				}
			}
			if !streams[n] {
				return pdfx.Canon(v)
			}
			return pdfx.Canon(d)
		case pdfx.Dict:
			if n != holder || len(added) == 0 {
				return pdfx.Canon(v)
			}
			d := pdfx.Dict{}
			for k, e := range v {
				d[k] = e
			}
			delete(d, "XFA")
			if af, ok := d["AcroForm"].(pdfx.Dict); ok {
				d["AcroForm"] = pdfx.Dict{}
				for k, e := range af {
					if k != "XFA" {
						d["AcroForm"].(pdfx.Dict)[k] = e
					}
				}
			}
			return pdfx.Canon(d)
		case pdfx.Arr:
			if n == holder && len(added) > 0 {
				return "array"
			}
		}
		return pdfx.Canon(v)
	}
	had := map[int]bool{}
	for _, n := range old.Nums() {
		had[n] = true
		a, err1 := old.Get(n)
		b, err2 := f.Get(n)
		if err1 != nil || err2 != nil {
			fail("frame", "object %d: %v %v", n, err1, err2)
			return
		}
		if s, ok := a.(*pdfx.Stream); ok && (s.D["Type"] == pdfx.Name("XRef") || s.D["Type"] == pdfx.Name("ObjStm")) {
			continue
		}
		if strip(a, n) != strip(b, n) {
			fail("frame", "object %d changed from %.300s to %.300s", n, pdfx.Canon(a), pdfx.Canon(b))
			return
		}
		if old.X[n].Kind == 'n' && f.X[n].Kind == 'n' && old.X[n].Gen != f.X[n].Gen {
			fail("frame", "object %d had generation %d and has %d", n, old.X[n].Gen, f.X[n].Gen)
		}
	}
	for _, n := range f.Nums() {
		if v, _ := f.Get(n); !had[n] && !added[n] {
			if s, ok := v.(*pdfx.Stream); ok && (s.D["Type"] == pdfx.Name("XRef") || s.D["Type"] == pdfx.Name("ObjStm")) {
				continue
			}
			fail("frame", "there is a new object %d: %.200s", n, pdfx.Canon(v))
			return
		}
	}
	for _, k := range []string{"Root", "Info", "ID", "Encrypt"} {
		if k == "ID" && !x.crypt {
			continue
		}
		if pdfx.Canon(old.Trailer[k]) != pdfx.Canon(f.Trailer[k]) {
			fail("trailer", "the trailer's /%s was %s and is %s", k, pdfx.Canon(old.Trailer[k]), pdfx.Canon(f.Trailer[k]))
		}
	}
}
