package main

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/forms"
	"github.com/benedoc-inc/pdfer/forms/acroform"
	"github.com/benedoc-inc/pdfer/types"
	"verif/harness/pdfx"
)

// P14: forms of AcroForm.tla: generated into documents, filled by the library
// and by "other programs", read back strictly and through the library.

func init() { props["P14"] = acroReplay }

type afVal struct {
	K  string `json:"k"`
	I  int    `json:"i"`
	S  []int  `json:"s"`
	On bool   `json:"on"`
}

type afNode struct {
	ID   int   `json:"id"`
	Up   int   `json:"up"`
	Nm   int   `json:"nm"`
	Term bool  `json:"term"`
	Wid  []int `json:"wid"`
	Own  struct {
		FT  []string
		Ff  [][]string
		V   []afVal
		DV  []afVal
		Max []int
	} `json:"own"`
	FT   string   `json:"ft"`
	Ff   []string `json:"ff"`
	DV   []afVal  `json:"dv"`
	Max  []int    `json:"max"`
	Type string   `json:"type"`
}

type afState struct {
	V     afVal
	Shown []int
}

type afTrace struct {
	Nodes  []*afNode         `json:"nodes"`
	Start  [][3]jsonRaw      `json:"start"`
	Log    []afStep          `json:"log"`
	States [][][3]jsonRaw    `json:"states"`
	state  []map[int]afState // decoded
	node   map[int]*afNode
	start  map[int]afStart
}

type afStart struct {
	V     []afVal
	Shown []int
}

type afStep struct {
	A string       `json:"a"`
	M [][2]jsonRaw `json:"m"`
}

const afYes, afUnknown = 99, -1

var afFlag = map[string]int{"ro": 1, "req": 2, "multiline": 1 << 12, "radio": 1 << 15, "push": 1 << 16, "combo": 1 << 17, "multi": 1 << 21}

func afFlags(ff []string) int {
	n := 0
	for _, f := range ff {
		n |= afFlag[f]
	}
	return n
}

// afDoc is a form in a document.
type afDoc struct {
	t      *T
	r      *rand.Rand
	tr     *afTrace
	d      *genDoc
	nm     map[int]string // partial names
	texts  []string       // from 1
	typed  []interface{}  // the same as a caller may give it
	states []string       // from 0, "Off"
	tu     map[int]string
	opts   map[int][][2]string // value, display
	obj    map[int]int         // field -> object
	wid    map[int][]int       // field -> its widgets' objects
	page   map[int]int         // field -> page of its first widget
	rect   map[int]pdfx.Arr
	ap     map[int]map[string]string // widget object -> state ("" for the only one) -> stream
	data   []byte
	crypt  *cryptDoc
	flat   bool
}

func (a *afDoc) name(n int) string {
	if n == afUnknown {
		return "no.such field"
	}
	x := a.tr.node[n]
	if x.Up == 0 {
		return a.nm[x.Nm]
	}
	return a.name(x.Up) + "." + a.nm[x.Nm]
}

func (a *afDoc) stateName(i int) string {
	if i == afYes {
		return "Yes"
	}
	return a.states[i]
}

// lib is what a value is for a caller of the library.
func (a *afDoc) lib(v afVal) interface{} {
	switch v.K {
	case "t":
		return a.texts[v.I]
	case "s":
		return a.stateName(v.I)
	case "l":
		l := []interface{}{}
		for _, i := range v.S {
			l = append(l, a.texts[i])
		}
		return l
	}
	return nil
}

// ask is what a caller gives.
func (a *afDoc) ask(n *afNode, v afVal) interface{} {
	switch {
	case v.K == "b":
		return v.On
	case v.K == "t" && n != nil && n.FT == "Tx" && a.r.Intn(2) == 0:
		return a.typed[v.I]
	case v.K == "l" && a.r.Intn(2) == 0:
		var l []string
		for _, i := range v.S {
			l = append(l, a.texts[i])
		}
		return l
	}
	return a.lib(v)
}

// val is a value as a document has it.
func (a *afDoc) val(v afVal) pdfx.Val {
	switch v.K {
	case "t":
		return textStr(a.r, a.texts[v.I])
	case "s":
		return pdfx.Name(a.stateName(v.I))
	case "l":
		l := pdfx.Arr{}
		for _, i := range v.S {
			l = append(l, textStr(a.r, a.texts[i]))
		}
		return l
	}
	return pdfx.Null{}
}

// same tells whether a value in a document is v.
func (a *afDoc) same(f *pdfx.File, got pdfx.Val, v afVal) bool {
	got, err := f.Deref(got)
	if err != nil {
		return false
	}
	switch v.K {
	case "none":
		return got == nil || got == pdfx.Null{}
	case "t":
		if s, ok := got.(*pdfx.Stream); ok {
			b, err := s.Decode()
			if err != nil {
				return false
			}
			got = pdfx.Str(b)
		}
		s, ok := pdfx.TextOf(got)
		return ok && s == a.texts[v.I]
	case "s":
		return got == pdfx.Name(a.stateName(v.I))
	case "l":
		l, ok := got.(pdfx.Arr)
		if !ok || len(l) != len(v.S) {
			return false
		}
		for i, e := range l {
			if !a.same(f, e, afVal{K: "t", I: v.S[i]}) {
				return false
			}
		}
		return true
	}
	return false
}

func (a *afDoc) make() {
	r, tr := a.r, a.tr
	// what the symbols stand for
	used := map[string]bool{}
	distinct := func(gen func() string) string {
		for {
			if s := gen(); !used[s] {
				used[s] = true
				return s
			}
		}
	}
	a.nm, a.tu = map[int]string{}, map[int]string{}
	for i := 1; i <= 40; i++ {
		a.nm[i] = distinct(func() string {
			switch r.Intn(4) {
			case 0:
				return []string{"Kids", "T", "V", "Fields", "name", "Name", "AcroForm", "FT", "/V", "1 0 R", "a b", "field", "Off", "Yes", "é", "(x)"}[r.Intn(16)]
			case 1:
				return "f" + strconv.Itoa(r.Intn(100))
			}
			for {
				if s := strings.ReplaceAll(randText(r), ".", ""); s != "" {
					return s
				}
			}
		})
	}
	used = map[string]bool{"Off": true, "Yes": true}
	a.texts, a.typed, a.states = []string{""}, []interface{}{nil}, []string{"Off"}
	for i := 1; i <= 8; i++ {
		var v interface{}
		s := distinct(func() string {
			switch r.Intn(6) {
			case 0:
				n := r.Intn(2000) - 1000
				v = n
				return strconv.Itoa(n)
			case 1:
				x, s := randNum(r)
				v = x
				return s
			case 2:
				v = r.Intn(2) == 0
				return strconv.FormatBool(v.(bool))
			}
			s := randText(r)
			v = s
			return s
		})
		a.texts, a.typed = append(a.texts, s), append(a.typed, v)
		a.states = append(a.states, distinct(func() string {
			if r.Intn(2) == 0 {
				return []string{"On", "1", "0", "Option A", "ä", "a#b", "x(y)", "off", "OFF", "Choice1", "V", "N"}[r.Intn(12)]
			}
			return "S" + strconv.Itoa(r.Intn(50))
		}))
	}

	// the document
	pages := 1 + r.Intn(4)
	st := &specTree{}
	var top []interface{}
	for i := 1; i <= pages; i++ {
		top = append(top, float64(i))
	}
	if r.Intn(2) == 0 {
		k := 1 + r.Intn(pages)
		st.Kids = append(st.Kids, [2]interface{}{float64(101), top[:k:k]})
		top = append([]interface{}{float64(101)}, top[k:]...)
	}
	st.Kids = append(st.Kids, [2]interface{}{float64(treeRoot), top})
	d := genTreeDoc(r, st, treeOpts{gens: true, decoys: r.Intn(2) == 0, tag: "form"})
	a.d = d
	if r.Intn(3) == 0 {
		h := []string{"R2", "R3", "R4rc4", "R4aes", "R5", "R6"}[r.Intn(6)]
		d.pw = []byte([]string{"", "secret"}[r.Intn(2)])
		d.crypt = newCrypt(r, handlerCfg(r, h), d.pw, []byte("owner"))
		a.t.Count("encrypted", 1)
	}
	maybeRef := func(v pdfx.Val, k int) pdfx.Val {
		if r.Intn(k) == 0 {
			return d.add(v)
		}
		return v
	}
	a.obj, a.wid, a.page, a.rect, a.ap, a.opts = map[int]int{}, map[int][]int{}, map[int]int{}, map[int]pdfx.Arr{}, map[int]map[string]string{}, map[int][][2]string{}
	ref := map[int]pdfx.Ref{}
	for _, n := range tr.Nodes {
		ref[n.ID] = d.reserve(r)
		a.obj[n.ID] = ref[n.ID].N
	}
	kids := map[int]pdfx.Arr{}
	for _, n := range tr.Nodes {
		kids[n.Up] = append(kids[n.Up], ref[n.ID])
	}
	for _, k := range kids {
		r.Shuffle(len(k), func(i, j int) { k[i], k[j] = k[j], k[i] })
	}
	stream := func(s string) pdfx.Val {
		x := &pdfx.Stream{D: pdfx.Dict{"Type": pdfx.Name("XObject"), "Subtype": pdfx.Name("Form"), "BBox": pdfx.Arr{0, 0, 20, 20}}, Raw: []byte(s)}
		if r.Intn(2) == 0 {
			x.Raw = pdfx.Deflate(x.Raw)
			x.D["Filter"] = pdfx.Name("FlateDecode")
		}
		return d.add(x)
	}
	// widget makes dict, which object n will be, an annotation
	widget := func(n int, self pdfx.Ref, dict pdfx.Dict, state string, shown string) {
		p := r.Intn(pages)
		pr := pdfx.Ref{N: d.num[p+1], G: d.gens[d.num[p+1]]}
		dict["Subtype"] = pdfx.Name("Widget")
		if r.Intn(2) == 0 {
			dict["Type"] = pdfx.Name("Annot")
			dict["P"] = pr
		}
		rc := pdfx.Arr{r.Intn(300), pdfx.Real(float64(r.Intn(900)) + 0.5), 300 + r.Intn(100), 1000}
		dict["Rect"] = maybeRef(rc, 6)
		if len(a.wid[n]) == 0 {
			a.page[n] = p
			if self.N == a.obj[n] {
				a.rect[n] = rc
			}
		}
		a.wid[n] = append(a.wid[n], self.N)
		a.ap[self.N] = map[string]string{}
		put := func(state string) pdfx.Val {
			s := fmt.Sprintf("q %% %d %s endobj >>\nQ", self.N, state)
			a.ap[self.N][state] = s
			return stream(s)
		}
		if state != "" {
			nd := pdfx.Dict{state: put(state)}
			if r.Intn(2) == 0 {
				nd["Off"] = put("Off")
			}
			ap := pdfx.Dict{"N": maybeRef(nd, 3)}
			if r.Intn(3) == 0 {
				ap["D"] = pdfx.Dict{"Down": stream("q Q"), "Off": stream("Q q")}
			}
			dict["AP"] = maybeRef(ap, 3)
			if shown != "Off" || r.Intn(3) > 0 {
				dict["AS"] = maybeRef(pdfx.Name(shown), 5)
			}
		} else if r.Intn(2) == 0 {
			dict["AP"] = maybeRef(pdfx.Dict{"N": put("")}, 4)
		}
		if r.Intn(3) == 0 {
			dict["MK"] = pdfx.Dict{"CA": pdfx.Str("/AS /Off"), "BC": pdfx.Arr{0}}
		}
		pd := d.objs[d.num[p+1]].(pdfx.Dict)
		switch x := pd["Annots"].(type) {
		case pdfx.Arr:
			pd["Annots"] = append(x, self)
		case pdfx.Ref:
			d.objs[x.N] = append(d.objs[x.N].(pdfx.Arr), self)
		default:
			pd["Annots"] = maybeRef(pdfx.Arr{self}, 3)
		}
	}
	for _, n := range tr.Nodes {
		v := pdfx.Dict{"T": maybeRef(textStr(r, a.nm[n.Nm]), 8)}
		if n.Up != 0 {
			v["Parent"] = ref[n.Up]
		}
		if len(n.Own.FT) > 0 {
			v["FT"] = maybeRef(pdfx.Name(n.Own.FT[0]), 10)
		}
		if len(n.Own.Ff) > 0 {
			v["Ff"] = maybeRef(afFlags(n.Own.Ff[0]), 10)
		}
		own := tr.start[n.ID]
		if len(own.V) > 0 {
			x := a.val(own.V[0])
			if s, ok := x.(pdfx.Str); ok && n.FT == "Tx" && r.Intn(6) == 0 {
				v["V"] = d.add(&pdfx.Stream{D: pdfx.Dict{}, Raw: []byte(s)})
			} else {
				v["V"] = maybeRef(x, 6)
			}
		}
		if len(n.Own.DV) > 0 {
			v["DV"] = maybeRef(a.val(n.Own.DV[0]), 6)
		}
		if len(n.Own.Max) > 0 {
			v["MaxLen"] = maybeRef(n.Own.Max[0], 8)
		}
		if r.Intn(3) == 0 {
			a.tu[n.ID] = randText(r)
			v["TU"] = textStr(r, a.tu[n.ID])
		}
		if r.Intn(4) == 0 {
			v["DA"] = pdfx.Str("/Helv 0 Tf 0 g")
		}
		if r.Intn(5) == 0 {
			v["AA"] = pdfx.Dict{"K": pdfx.Dict{"S": pdfx.Name("JavaScript"), "JS": pdfx.Str("/V (trap) /Kids [1 0 R] >>")}}
		}
		if n.FT == "Ch" && n.Term {
			var o pdfx.Arr
			for _, i := range r.Perm(len(a.texts) - 1) {
				s := a.texts[i+1]
				if r.Intn(2) == 0 {
					o = append(o, maybeRef(textStr(r, s), 8))
					a.opts[n.ID] = append(a.opts[n.ID], [2]string{s, s})
				} else {
					l := randText(r)
					o = append(o, maybeRef(pdfx.Arr{textStr(r, s), textStr(r, l)}, 8))
					a.opts[n.ID] = append(a.opts[n.ID], [2]string{s, l})
				}
			}
			v["Opt"] = maybeRef(o, 3)
			if r.Intn(3) == 0 && len(own.V) > 0 {
				v["I"] = a.indices(n.ID, own.V[0])
			}
		}
		if !n.Term {
			v["Kids"] = maybeRef(kids[n.ID], 5)
			d.set(ref[n.ID].N, v)
			continue
		}
		count := len(n.Wid)
		if n.FT != "Btn" || count == 0 {
			count = r.Intn(3)
		}
		ws := pdfx.Arr{}
		for i := 0; i < count; i++ {
			state, shown := "", "Off"
			if len(n.Wid) > 0 {
				state, shown = a.states[n.Wid[i]], a.states[own.Shown[i]]
			}
			if count == 1 && r.Intn(2) == 0 {
				widget(n.ID, ref[n.ID], v, state, shown)
				break
			}
			w := pdfx.Dict{"Parent": ref[n.ID]}
			if r.Intn(4) == 0 {
				w["MaxLen"] = 3 // means nothing here
			}
			wr := d.reserve(r)
			widget(n.ID, wr, w, state, shown)
			d.set(wr.N, w)
			ws = append(ws, wr)
		}
		if len(ws) > 0 {
			v["Kids"] = maybeRef(ws, 5)
		} else if r.Intn(6) == 0 {
			v["Kids"] = pdfx.Arr{}
		}
		if r.Intn(5) == 0 {
			decoys(r, v)
		}
		d.set(ref[n.ID].N, v)
	}
	fields := kids[0]
	if r.Intn(4) == 0 { // a signed field, which nothing here touches
		sig := d.add(pdfx.Dict{"Type": pdfx.Name("Sig"), "Filter": pdfx.Name("Adobe.PPKLite"), "ByteRange": pdfx.Arr{0, 1, 2, 3}, "Contents": pdfx.Str("(\x00>")})
		fields = append(fields, d.add(pdfx.Dict{"FT": pdfx.Name("Sig"), "T": pdfx.Str("signed.here"), "V": sig}))
	}
	form := pdfx.Dict{"Fields": maybeRef(fields, 3), "DA": pdfx.Str("/Helv 12 Tf"), "DR": pdfx.Dict{"Font": pdfx.Dict{}}}
	if r.Intn(2) == 0 {
		form["NeedAppearances"] = r.Intn(2) == 0
		form["SigFlags"] = 0
	}
	cat := d.objs[d.root.N].(pdfx.Dict)
	cat["AcroForm"] = maybeRef(form, 2)
	cat["AAA"] = pdfx.Str("/AcroForm 1 0 R")
	// nothing refers to these
	for i := r.Intn(3); i > 0; i-- {
		n := tr.Nodes[r.Intn(len(tr.Nodes))]
		d.add(pdfx.Dict{"FT": pdfx.Name("Tx"), "T": textStr(r, a.nm[n.Nm]), "V": pdfx.Str("orphan"), "Subtype": pdfx.Name("Widget")})
	}
	a.data = d.serialise(r)
	a.crypt = &cryptDoc{r: r, c: d.crypt, data: a.data}
}

// indices tells which options a value is.
func (a *afDoc) indices(n int, v afVal) pdfx.Arr {
	want := map[string]bool{}
	if v.K == "t" {
		want[a.texts[v.I]] = true
	}
	for _, i := range v.S {
		want[a.texts[i]] = true
	}
	o := pdfx.Arr{}
	for i, x := range a.opts[n] {
		if want[x[0]] {
			o = append(o, i)
		}
	}
	return o
}

func (a *afDoc) open() *pdfx.File {
	f, err := pdfx.ReadFile(a.data)
	if err == nil && a.d.crypt != nil {
		_, err = f.Unlock(a.d.pw)
	}
	if err == nil {
		err = f.CheckAll()
	}
	if err == nil {
		_, err = f.Pages()
	}
	if err != nil {
		a.t.FailBlob("invalid", a.data, "the document is not valid: %v", err)
		return nil
	}
	return f
}

// reqs decodes what a step gives.
func (s *afStep) reqs() map[int]afVal {
	m := map[int]afVal{}
	for _, x := range s.M {
		var n int
		var v afVal
		x[0].to(&n)
		x[1].to(&v)
		m[n] = v
	}
	return m
}

// fill lets the library fill the form.
func (a *afDoc) fill(m map[int]afVal) {
	data := types.FormData{}
	for n, v := range m {
		data[a.name(n)] = a.ask(a.tr.node[n], v)
	}
	before := append([]byte(nil), a.data...)
	var out []byte
	var err error
	a.t.Do("fill", a.data, func() {
		switch k := a.r.Intn(8); k {
		case 0:
			out, err = acroform.FillForm(a.data, data, a.d.pw, false)
		case 1:
			out, err = acroform.FillFormFields(a.data, data, a.d.pw, false)
		case 2:
			out, err = acroform.FillFormFieldsWithStreams(a.data, data, a.d.pw, false)
		case 3:
			out, err = acroform.ExtractAndFill(a.data, data, a.d.pw, false)
		case 4, 5:
			var fm forms.Form
			if fm, err = forms.Extract(a.data, a.d.pw, false); err == nil {
				if k == 4 {
					out, err = fm.Fill(a.data, data, a.d.pw, false)
				} else {
					out, err = acroform.FillFormFromSchema(a.data, fm.Schema(), data, a.d.pw, false)
				}
			}
		default: // one by one
			out = a.data
			var ns []int
			for n := range m {
				ns = append(ns, n)
			}
			sort.Ints(ns)
			for _, n := range ns {
				var pdf *parse.PDF
				if pdf, err = parse.OpenWithOptions(out, parse.ParseOptions{Password: a.d.pw}); err != nil {
					return
				}
				var af *acroform.AcroForm
				if af, err = acroform.ParseAcroForm(out, pdf.Encryption(), false); err != nil {
					return
				}
				fd := af.FindFieldByName(a.name(n))
				if n == afUnknown {
					if fd != nil {
						a.t.FailBlob("unknown", a.data, "a field was found by the unknown name %q", a.name(n))
					}
					continue
				}
				if fd == nil {
					err = fmt.Errorf("field %q not found", a.name(n))
					return
				}
				if out, err = acroform.FillFieldValue(out, fd, data[a.name(n)], pdf.Encryption(), false); err != nil {
					return
				}
			}
		}
	})
	if a.t.Failed() {
		return
	}
	if err != nil {
		a.t.FailBlob("fill", a.data, "filling %q: %v", data, err)
		return
	}
	if string(before) != string(a.data) {
		a.t.FailBlob("fill", before, "filling wrote into the document it was given")
	}
	a.data = out
}

// revise is another program's revision.
func (a *afDoc) revise(n int, v afVal, shown []int) {
	f := a.open()
	if f == nil {
		return
	}
	var objs []pdfx.Obj
	change := map[int]pdfx.Dict{}
	get := func(num int) pdfx.Dict {
		if change[num] == nil {
			o, _ := f.Get(num)
			x := pdfx.Dict{}
			for k, e := range o.(pdfx.Dict) {
				x[k] = e
			}
			change[num] = x
		}
		return change[num]
	}
	fd := get(a.obj[n])
	fd["V"] = a.val(v)
	delete(fd, "I")
	for i, s := range shown {
		get(a.wid[n][i])["AS"] = pdfx.Name(a.states[s])
	}
	kind := []string{"table", "xstm"}[a.r.Intn(2)]
	for num, x := range change {
		o := pdfx.Obj{N: num, V: x}
		if e := f.X[num]; e.Kind == 'n' {
			o.G = e.Gen
		}
		o.Packed = kind == "xstm" && o.G == 0 && a.r.Intn(2) == 0
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].N < objs[j].N })
	a.crypt.data = a.data
	root := f.Trailer["Root"].(pdfx.Ref)
	a.crypt.append(kind, objs, root, nil, 0)
	a.data = a.crypt.data
}

// frame checks that a step of the library changed only what it had to.
func (a *afDoc) frame(old, f *pdfx.File, m map[int]afVal, st map[int]afState) {
	field, widget := map[int]int{}, map[int]int{}
	for n := range m {
		if n != afUnknown {
			field[a.obj[n]] = n
			if len(a.tr.node[n].Wid) > 0 {
				for i, w := range a.wid[n] {
					widget[w] = i
					if w != a.obj[n] {
						field[w] = n
					}
				}
			}
		}
	}
	for _, n := range old.Nums() {
		x, err := old.Get(n)
		if err != nil {
			panic("harness: " + err.Error())
		}
		y, err := f.Get(n)
		if err != nil {
			a.t.FailBlob("frame", a.data, "object %d is gone: %v", n, err)
			return
		}
		if id, ok := field[n]; ok {
			xd, yd := pdfx.Dict{}, pdfx.Dict{}
			for k, v := range x.(pdfx.Dict) {
				xd[k] = v
			}
			z, ok := y.(pdfx.Dict)
			if !ok {
				a.t.FailBlob("frame", a.data, "object %d, a field, has become %T", n, y)
				return
			}
			for k, v := range z {
				yd[k] = v
			}
			if n == a.obj[id] {
				delete(xd, "V")
				delete(yd, "V")
				if i, ok := yd["I"]; ok {
					i, _ = f.Deref(i)
					if len(a.opts[id]) == 0 || pdfx.Canon(i) != pdfx.Canon(a.indices(id, st[id].V)) {
						a.t.FailBlob("selection", a.data, "field %q has value %q but selection %s", a.name(id), a.lib(st[id].V), pdfx.Canon(i))
					}
				}
				delete(xd, "I")
				delete(yd, "I")
			}
			if _, ok := widget[n]; ok {
				delete(xd, "AS")
				delete(yd, "AS")
			}
			x, y = xd, yd
		}
		if n == old.Trailer["Root"].(pdfx.Ref).N && a.flat {
			xd := pdfx.Dict{}
			for k, v := range x.(pdfx.Dict) {
				if k != "AcroForm" {
					xd[k] = v
				}
			}
			x = xd
		}
		if pdfx.Canon(x) != pdfx.Canon(y) {
			a.t.FailBlob("frame", a.data, "object %d changed from %.300s to %.300s", n, pdfx.Canon(x), pdfx.Canon(y))
			return
		}
		if old.X[n].Kind == 'n' && f.X[n].Kind == 'n' && old.X[n].Gen != f.X[n].Gen {
			a.t.FailBlob("frame", a.data, "object %d had generation %d and has %d", n, old.X[n].Gen, f.X[n].Gen)
		}
	}
	for _, k := range []string{"Root", "Info", "ID", "Encrypt"} {
		if k == "ID" && a.d.crypt == nil {
			continue // the second part may change
		}
		if pdfx.Canon(old.Trailer[k]) != pdfx.Canon(f.Trailer[k]) {
			a.t.FailBlob("trailer", a.data, "the trailer's /%s was %s and is %s", k, pdfx.Canon(old.Trailer[k]), pdfx.Canon(f.Trailer[k]))
		}
	}
}

// file checks the document's fields strictly.
func (a *afDoc) file(f *pdfx.File, st map[int]afState) {
	for _, n := range a.tr.Nodes {
		if !n.Term {
			continue
		}
		var v pdfx.Val
		for x := n.ID; x != 0 && v == nil; x = a.tr.node[x].Up {
			d, err := f.DictOf(pdfx.Ref{N: a.obj[x]})
			if err != nil {
				a.t.FailBlob("value", a.data, "field %q: %v", a.name(x), err)
				return
			}
			v = d["V"]
		}
		if !a.same(f, v, st[n.ID].V) {
			x, _ := f.Deref(v)
			a.t.FailBlob("value", a.data, "field %q (%s): value %.200s, should be %q", a.name(n.ID), n.Type, pdfx.Canon(x), a.lib(st[n.ID].V))
		}
		for i, s := range st[n.ID].Shown {
			d, err := f.DictOf(pdfx.Ref{N: a.wid[n.ID][i]})
			if err != nil {
				a.t.FailBlob("shown", a.data, "widget %d of field %q: %v", i, a.name(n.ID), err)
				return
			}
			as, _ := f.Deref(d["AS"])
			if as == nil {
				as = pdfx.Name("Off")
			}
			if as != pdfx.Name(a.states[s]) {
				a.t.FailBlob("shown", a.data, "field %q (%s) has value %q, its widget %d, which has state %q, shows %s instead of %q", a.name(n.ID), n.Type, a.lib(st[n.ID].V), i, a.states[n.Wid[i]], pdfx.Canon(as), a.states[s])
			}
		}
		a.t.Count("fields", 1)
	}
}

// read checks what the library says about the form.
func (a *afDoc) read(st map[int]afState) {
	t, r := a.t, a.r
	var file *pdfx.File
	var af *acroform.AcroForm
	var values map[string]interface{}
	var schema *types.FormSchema
	var enc *types.PDFEncryption
	var err error
	t.Do("read", a.data, func() {
		switch r.Intn(3) {
		case 0:
			var fm forms.Form
			if fm, err = forms.Extract(a.data, a.d.pw, false); err == nil {
				if fm.Type() != forms.FormTypeAcroForm {
					t.FailBlob("type", a.data, "form type %q", fm.Type())
					return
				}
				values, schema = fm.GetValues(), fm.Schema()
				af, err = forms.ExtractAcroForm(a.data, a.d.pw, false)
			}
		case 1:
			if af, err = acroform.ExtractAcroForm(a.data, a.d.pw, false); err == nil {
				values = af.GetFieldValues()
				schema, err = acroform.ExtractFormSchema(a.data, a.d.pw, false)
			}
		default:
			var pdf *parse.PDF
			if pdf, err = parse.OpenWithOptions(a.data, parse.ParseOptions{Password: a.d.pw}); err == nil {
				if af, err = acroform.ParseAcroForm(a.data, pdf.Encryption(), false); err == nil {
					values, schema = af.GetFieldValues(), af.ToFormSchema()
				}
			}
		}
		if pdf, err := parse.OpenWithOptions(a.data, parse.ParseOptions{Password: a.d.pw}); err == nil {
			enc = pdf.Encryption()
		}
		if k, err := forms.Detect(a.data, a.d.pw, false); k != forms.FormTypeAcroForm || err != nil {
			t.FailBlob("type", a.data, "the form is detected as %q, %v", k, err)
		}
	})
	if t.Failed() {
		return
	}
	if err != nil {
		t.FailBlob("read", a.data, "extracting the form: %v", err)
		return
	}
	question := map[string]types.Question{}
	for _, q := range schema.Questions {
		if _, twice := question[q.Name]; twice {
			t.FailBlob("schema", a.data, "two questions for %q", q.Name)
		}
		question[q.Name] = q
	}
	want := map[string]bool{}
	for _, n := range a.tr.Nodes {
		full := a.name(n.ID)
		want[full] = true
		fd := af.FindFieldByName(full)
		if fd == nil || fd.ObjectNum != a.obj[n.ID] {
			t.FailBlob("find", a.data, "field %q (object %d) not found by its name: %v", full, a.obj[n.ID], fd)
			return
		}
		if fd.GetFullName() != full || fd.T != a.nm[n.Nm] || fd.TU != a.tu[n.ID] {
			t.FailBlob("name", a.data, "field %q is named %q, %q, %q (should be %q, %q)", full, fd.GetFullName(), fd.T, fd.TU, a.nm[n.Nm], a.tu[n.ID])
		}
		if fd.FT != n.FT || fd.Ff != afFlags(n.Ff) {
			t.FailBlob("type", a.data, "field %q has type %q, flags %#x, should have %q, %#x", full, fd.FT, fd.Ff, n.FT, afFlags(n.Ff))
		}
		max := 0
		if len(n.Max) > 0 {
			max = n.Max[0]
		}
		if fd.MaxLen != max {
			t.FailBlob("maxlen", a.data, "field %q has maximum length %d, should have %d", full, fd.MaxLen, max)
		}
		var dv interface{}
		if len(n.DV) > 0 {
			dv = a.lib(n.DV[0])
		}
		if !reflect.DeepEqual(fd.DV, dv) {
			t.FailBlob("default", a.data, "field %q has default %q, should have %q", full, fd.DV, dv)
		}
		if rc := a.rect[n.ID]; rc != nil {
			ok := len(fd.Rect) == 4
			for i := 0; ok && i < 4; i++ {
				ok = strconv.FormatFloat(fd.Rect[i], 'f', -1, 64) == strings.TrimSuffix(string(pdfx.Write(rc[i])), ".0")
			}
			if !ok {
				t.FailBlob("rect", a.data, "field %q has rectangle %v, should have %s", full, fd.Rect, pdfx.Canon(rc))
			}
		}
		if !n.Term {
			continue
		}
		if len(a.wid[n.ID]) > 0 && fd.Page != a.page[n.ID] {
			t.FailBlob("page", a.data, "field %q is on page %d, should be on %d", full, fd.Page, a.page[n.ID])
		}
		if v := a.lib(st[n.ID].V); !reflect.DeepEqual(values[full], v) {
			t.FailBlob("values", a.data, "field %q (%s): extracted value %q, should be %q", full, n.Type, values[full], v)
		}
		q, ok := question[full]
		if !ok {
			t.FailBlob("schema", a.data, "no question for field %q", full)
			return
		}
		if string(q.Type) != n.Type || q.Required != (afFlags(n.Ff)&2 != 0) || q.ReadOnly != (afFlags(n.Ff)&1 != 0) || q.Label != a.tu[n.ID] || !reflect.DeepEqual(q.Default, dv) {
			t.FailBlob("schema", a.data, "question %q: type %q, required %v, read-only %v, label %q, default %q; the field is %q with flags %v, default %q", full, q.Type, q.Required, q.ReadOnly, q.Label, q.Default, n.Type, n.Ff, dv)
		}
		if (q.Validation != nil && q.Validation.MaxLength != nil) != (max > 0) || max > 0 && *q.Validation.MaxLength != max {
			t.FailBlob("schema", a.data, "question %q: the maximum length should be %d", full, max)
		}
		if len(q.Options) != len(a.opts[n.ID]) {
			t.FailBlob("options", a.data, "question %q: %d options, should have %d", full, len(q.Options), len(a.opts[n.ID]))
			return
		}
		selected := map[string]bool{}
		if len(a.opts[n.ID]) > 0 {
			if file == nil {
				file = a.open()
			}
			if file == nil {
				return
			}
			if d, err := file.DictOf(pdfx.Ref{N: a.obj[n.ID]}); err == nil {
				if v, _ := file.Deref(d["I"]); v != nil {
					list, _ := v.(pdfx.Arr)
					for _, x := range list {
						selected[pdfx.Canon(x)] = true
					}
				}
			}
		}
		for i, o := range a.opts[n.ID] {
			if q.Options[i].Selected != selected[pdfx.Canon(i)] {
				t.FailBlob("options", a.data, "question %q: option %d is told selected %v, selected are %v", full, i, q.Options[i].Selected, selected)
			}
			if fmt.Sprint(q.Options[i].Value) != o[0] || q.Options[i].Label != o[1] {
				t.FailBlob("options", a.data, "question %q: option %d is %v / %q, should be %q / %q", full, i, q.Options[i].Value, q.Options[i].Label, o[0], o[1])
			}
		}
		if len(a.wid[n.ID]) > 0 && r.Intn(4) == 0 {
			a.appearance(n, fd, enc, st[n.ID])
		}
	}
	for name, v := range values {
		if !want[name] {
			t.FailBlob("values", a.data, "extracted value %q for %q, which is no field", v, name)
		}
	}
}

// appearance checks what a field's first widget looks like.
func (a *afDoc) appearance(n *afNode, fd *acroform.Field, enc *types.PDFEncryption, st afState) {
	w := a.wid[n.ID][0]
	state := ""
	if len(st.Shown) > 0 {
		state = a.states[st.Shown[0]]
	}
	want, ok := a.ap[w][state]
	var got []byte
	var err error
	a.t.Do("appearance", a.data, func() { got, err = acroform.GetFieldAppearance(fd, a.data, enc, false) })
	if a.t.Failed() {
		return
	}
	if ok != (err == nil) || ok && string(got) != want {
		a.t.FailBlob("appearance", a.data, "field %q: appearance %q, %v; should be %q (%v)", a.name(n.ID), got, err, want, ok)
	}
	a.t.Count("appearances", 1)
}

func acroReplay(t *T) {
	if t.Tag == "build" || t.Tag == "buildbfs" {
		formBuild(t)
		return
	}
	var tr afTrace
	t.JSON(&tr)
	tr.node, tr.start = map[int]*afNode{}, map[int]afStart{}
	sort.Slice(tr.Nodes, func(i, j int) bool { return tr.Nodes[i].ID < tr.Nodes[j].ID })
	for _, n := range tr.Nodes {
		tr.node[n.ID] = n
	}
	for _, x := range tr.Start {
		var n int
		var s afStart
		x[0].to(&n)
		x[1].to(&s.V)
		x[2].to(&s.Shown)
		tr.start[n] = s
	}
	for _, st := range tr.States {
		m := map[int]afState{}
		for _, x := range st {
			var n int
			var s afState
			x[0].to(&n)
			x[1].to(&s.V)
			x[2].to(&s.Shown)
			m[n] = s
		}
		tr.state = append(tr.state, m)
	}
	a := &afDoc{t: t, r: t.R, tr: &tr}
	a.make()
	f := a.open()
	if f == nil {
		return
	}
	a.file(f, tr.state[0]) // checks the harness
	if t.Failed() {
		panic("harness: the generated form is wrong")
	}
	a.read(tr.state[0])
	for i, s := range tr.Log {
		if t.Failed() {
			return
		}
		t.Steps++
		st, m := tr.state[i+1], s.reqs()
		old := f
		switch s.A {
		case "fill":
			a.fill(m)
		case "revise":
			for n, v := range m {
				a.revise(n, v, st[n].Shown)
			}
		case "flatten":
			a.flat = true
			var err error
			var out []byte
			t.Do("flatten", a.data, func() { out, err = acroform.FlattenForm(a.data, a.d.pw, false) })
			if t.Failed() {
				return
			}
			if err != nil {
				t.FailBlob("flatten", a.data, "flattening: %v", err)
				return
			}
			a.data = out
		}
		if t.Failed() {
			return
		}
		if f = a.open(); f == nil {
			return
		}
		if s.A != "revise" {
			a.frame(old, f, m, st)
		}
		a.file(f, st)
		if a.flat {
			t.Do("read", a.data, func() {
				if fm, err := acroform.ExtractAcroForm(a.data, a.d.pw, false); err == nil {
					t.FailBlob("flatten", a.data, "after flattening there is still a form with %d fields", len(fm.Fields))
				}
				if k, err := forms.Detect(a.data, a.d.pw, false); err == nil {
					t.FailBlob("flatten", a.data, "after flattening a form is detected: %q", k)
				}
			})
		} else if !t.Failed() {
			a.read(st)
		}
	}
}

// randNum is a number of any size, and how it is written.
func randNum(r *rand.Rand) (float64, string) {
	x := float64(1 + r.Intn(100000))
	switch r.Intn(4) {
	case 0:
		x /= 64
	case 1:
		x = float64(1 + r.Int63n(1<<52))
	case 2:
		x = x / 1000 * math.Pow(10, float64(r.Intn(16)))
	case 3:
		x /= 1e9
	}
	if r.Intn(3) == 0 {
		x = -x
	}
	return x, strconv.FormatFloat(x, 'f', -1, 64)
}
