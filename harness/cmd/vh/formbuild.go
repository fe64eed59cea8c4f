package main

import (
	"fmt"
	"math/rand"
	"reflect"

	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/forms/acroform"
	"github.com/benedoc-inc/pdfer/types"
	"verif/harness/pdfx"
)

// Building sessions of FormBuild.tla: a form is built with the library's
// builders and the document read back strictly and through the library.

type fbTrace struct {
	Log []struct {
		A string `json:"a"`
		I int    `json:"i"`
		X string `json:"x"`
		N int    `json:"n"`
	} `json:"log"`
	Fields []struct {
		Kind string         `json:"kind"`
		At   map[string]int `json:"at"`
		Act  int            `json:"act"`
		Aa   map[string]int `json:"aa"`
		Ap   int            `json:"ap"`
	} `json:"fields"`
	Pages int `json:"pages"`
}

type fbVal struct {
	lib  interface{} // as given
	val  pdfx.Val    // as it must be written
	read interface{} // as the library must read it
}

type fbField struct {
	name string
	rect []float64
	opts []string
	def  *acroform.FieldDef
	vals []fbVal // from 1
	maxs []int
	acts []*acroform.Action
	want []func(f *pdfx.File, x pdfx.Val) string // what an action must be
	num  int
	ap   int
	look func(f *pdfx.File, x pdfx.Val) string
}

const fbValues, fbActions = 6, 8

func fbRect(r *rand.Rand) []float64 {
	c := func() float64 {
		switch r.Intn(3) {
		case 0:
			return float64(r.Intn(800))
		case 1:
			return float64(r.Intn(8000)) / 8
		}
		return float64(r.Intn(80000))/100 - 20
	}
	return []float64{c(), c(), c(), c()}
}

func fbNew(r *rand.Rand, i int, kind string) *fbField {
	o := &fbField{name: fmt.Sprintf("f%d%s", i, randText(r)), rect: fbRect(r), vals: make([]fbVal, 1), maxs: []int{0}, acts: []*acroform.Action{nil}}
	o.want = make([]func(*pdfx.File, pdfx.Val) string, 1)
	for j := 0; j < fbValues; j++ {
		var v fbVal
		text := randText(r)
		switch kind {
		case "text":
			switch r.Intn(6) {
			case 0:
				n := r.Intn(100000) - 50000
				v.lib, text = n, fmt.Sprint(n)
			case 1:
				v.lib, text = randNum(r)
			default:
				v.lib = text
			}
			v.val, v.read = pdfx.Str(text), text
		case "choice":
			if r.Intn(3) == 0 {
				list, arr, back := []string{}, pdfx.Arr{}, []interface{}{}
				for k := r.Intn(3) + 1; k > 0; k-- {
					s := fmt.Sprintf("%d%s", k, randText(r))
					list, arr, back = append(list, s), append(arr, pdfx.Str(s)), append(back, s)
				}
				v.lib, v.val, v.read = list, arr, back
				if r.Intn(2) == 0 {
					v.lib = back
				}
			} else {
				v = fbVal{text, pdfx.Str(text), text}
			}
		case "check", "radio":
			switch r.Intn(4) {
			case 0:
				v = fbVal{true, pdfx.Name("Yes"), "Yes"}
			case 1:
				v = fbVal{false, pdfx.Name("Off"), "Off"}
			default:
				s := []string{"On", "1", "a b", "x/y", "(z)", "é#20", "Yes", "c%d"}[r.Intn(8)]
				v = fbVal{s, pdfx.Name(s), s}
			}
		}
		o.vals = append(o.vals, v)
		o.maxs = append(o.maxs, 1+r.Intn(200))
	}
	for j := 0; j < fbActions; j++ {
		text := randText(r)
		var a acroform.Action
		var want func(f *pdfx.File, x pdfx.Val) string
		is := func(kind, key string, same func(f *pdfx.File, x pdfx.Val) bool) {
			want = func(f *pdfx.File, x pdfx.Val) string {
				d, err := f.DictOf(x)
				if err != nil {
					return err.Error()
				}
				if d["S"] != pdfx.Name(kind) || key != "" && !same(f, d[key]) {
					return fmt.Sprintf("%.200s is not a %s action with %q", pdfx.Canon(d), kind, text)
				}
				return ""
			}
		}
		switch k := r.Intn(2); {
		case k == 0:
			text = "http://x.y/" + []string{"", "a(b", "c)d", "\\e", "?q=1&r=%20", "é"}[r.Intn(6)]
			a = acroform.Action{Type: acroform.ActionTypeURI, URI: text}
			is("URI", "URI", func(f *pdfx.File, x pdfx.Val) bool {
				x, _ = f.Deref(x)
				return pdfx.Canon(x) == pdfx.Canon(pdfx.Str(text))
			})
		default:
			a = acroform.Action{Type: acroform.ActionTypeJavaScript, JavaScript: text}
			is("JavaScript", "JS", func(f *pdfx.File, x pdfx.Val) bool { return fbText(f, x, text) })
		}
		if j >= fbActions/2 { // not for mouse actions
			switch r.Intn(4) {
			case 0:
				a = acroform.Action{Type: acroform.ActionTypeReset}
				is("ResetForm", "", nil)
			case 1:
				a = acroform.Action{Type: acroform.ActionTypeSubmit}
				is("SubmitForm", "", nil)
			}
		}
		o.acts, o.want = append(o.acts, &a), append(o.want, want)
	}
	return o
}

func fbText(f *pdfx.File, x pdfx.Val, text string) bool {
	x, _ = f.Deref(x)
	s, ok := pdfx.TextOf(x)
	return ok && s == text
}

func fbSame(f *pdfx.File, x, want pdfx.Val) bool {
	x, _ = f.Deref(x)
	switch w := want.(type) {
	case pdfx.Str:
		return fbText(f, x, string(w))
	case pdfx.Arr:
		a, ok := x.(pdfx.Arr)
		if !ok || len(a) != len(w) {
			return false
		}
		for i := range a {
			if !fbSame(f, a[i], w[i]) {
				return false
			}
		}
		return true
	}
	return x == want
}

func formBuild(t *T) {
	var tr fbTrace
	t.JSON(&tr)
	r := t.R
	b := write.NewSimplePDFBuilder()
	fb := acroform.NewFormBuilder(b)
	ab := acroform.NewAppearanceBuilder(b.Writer())
	var fields []*fbField
	var data []byte
	var form int
	var bad string
	t.Do("build", nil, func() {
		for _, s := range tr.Log {
			t.Steps++
			var f *fbField
			if s.I > 0 && s.A != "add" {
				f = fields[s.I-1]
			}
			switch s.A {
			case "add":
				f = fbNew(r, s.I, s.X)
				page := r.Intn(2)
				switch s.X {
				case "text":
					f.def = fb.AddTextField(f.name, f.rect, page)
				case "check":
					f.def = fb.AddCheckbox(f.name, f.rect, page)
				case "radio":
					f.def = fb.AddRadioButton(f.name, f.rect, page)
				case "button":
					f.def = fb.AddButton(f.name, f.rect, page)
				case "choice":
					for k := r.Intn(4); k > 0; k-- {
						f.opts = append(f.opts, fmt.Sprintf("%d%s", k, randText(r)))
					}
					f.def = fb.AddChoiceField(f.name, f.rect, page, f.opts)
				}
				fields = append(fields, f)
			case "set":
				switch s.X {
				case "v":
					f.def.SetValue(f.vals[s.N].lib)
				case "dv":
					f.def.SetDefault(f.vals[s.N].lib)
				case "max":
					f.def.SetMaxLength(f.maxs[s.N])
				case "req":
					f.def.SetRequired(s.N == 1)
				case "ro":
					f.def.SetReadOnly(s.N == 1)
				}
			case "page":
				p := b.AddPage(write.PageSizeLetter)
				if r.Intn(2) == 0 {
					p.Content().SaveState().RestoreState()
				}
				b.FinalizePage(p)
			case "build":
				n, err := fb.BuildForm()
				if err != nil {
					bad = "building the form: " + err.Error()
					return
				}
				form = n
				body, err := b.Writer().GetObject(n)
				if err != nil {
					bad = "getting the form's object: " + err.Error()
					return
				}
				v, err := pdfx.Parse(body)
				d, _ := v.(pdfx.Dict)
				list, _ := d["Fields"].(pdfx.Arr)
				if err != nil || len(list) != len(fields) {
					bad = fmt.Sprintf("the form %q has %d fields (%v), %d were added", body, len(list), err, len(fields))
					return
				}
				for i, x := range list {
					ref, ok := x.(pdfx.Ref)
					if !ok {
						bad = fmt.Sprintf("field %d of %q is no reference", i, body)
						return
					}
					fields[i].num = ref.N
				}
			case "act":
				if err := acroform.AddActionToField(f.num, f.acts[s.N], b.Writer()); err != nil {
					bad = "adding an action: " + err.Error()
					return
				}
			case "mouse":
				ev := map[string]string{"U": "onMouseUp", "D": "onMouseDown", "E": "onEnter", "X": "onExit"}[s.X]
				if s.X == "U" && r.Intn(2) == 0 {
					ev = "onClick"
				}
				n := (s.N-1)%(fbActions/2) + 1
				if err := acroform.AddMouseAction(f.num, ev, f.acts[n], b.Writer()); err != nil {
					bad = "adding a mouse action: " + err.Error()
					return
				}
			case "appear":
				w, h := 1+float64(r.Intn(2000))/8, 1+float64(r.Intn(400))/8
				size := 1 + float64(r.Intn(80))/4
				// the standard fonts have the Latin letters of WinAnsiEncoding
				text := []string{"", "plain", "a(b", "c)d\\e", "caf\u00e9", "\u20ac 3", "\u201cq\u201d", "\u0153uvre"}[r.Intn(8)]
				var n int
				var err error
				show := ""
				font := ""
				switch r.Intn(3) {
				case 0:
					n, err = ab.CreateCheckboxAppearance(r.Intn(2) == 0, w, h)
				case 1:
					font = []string{"Helvetica", "Times-Roman", "Courier-Bold"}[r.Intn(3)]
					n, err = ab.CreateTextAppearance(text, w, h, size, font)
				default:
					font = "Helvetica"
					n, err = ab.CreateButtonAppearance(text, w, h, size)
				}
				if err == nil {
					err = acroform.AddAppearanceToField(f.num, n, b.Writer())
				}
				if err != nil {
					bad = "adding an appearance: " + err.Error()
					return
				}
				if font != "" {
					show = text
				}
				f.ap, f.look = n, fbLook(w, h, font, size, show)
			}
		}
		d, err := b.Bytes()
		if err != nil {
			bad = "writing: " + err.Error()
		}
		data = d
	})
	if bad != "" && !t.Failed() {
		t.Fail("build", "%s", bad)
	}
	if t.Failed() {
		return
	}
	f, err := pdfx.ReadFile(data)
	if err == nil {
		err = f.CheckAll()
	}
	var pages []int
	if err == nil {
		var ps []pdfx.Page
		ps, err = f.Pages()
		for range ps {
			pages = append(pages, 1)
		}
	}
	var cat, ad pdfx.Dict
	if err == nil {
		cat, err = f.DictOf(f.Trailer["Root"])
	}
	if err == nil {
		ad, err = f.DictOf(cat["AcroForm"])
	}
	if err != nil {
		t.FailBlob("built", data, "the built document: %v", err)
		return
	}
	if len(pages) != tr.Pages {
		t.FailBlob("built-pages", data, "%d pages, %d were added", len(pages), tr.Pages)
	}
	if cat["AcroForm"] != (pdfx.Ref{N: form}) {
		t.FailBlob("built", data, "the catalog's form is %v, should be object %d", cat["AcroForm"], form)
	}
	list, _ := f.Deref(ad["Fields"])
	arr, _ := list.(pdfx.Arr)
	if len(arr) != len(tr.Fields) {
		t.FailBlob("built", data, "%d fields, should be %d", len(arr), len(tr.Fields))
		return
	}
	for i, s := range tr.Fields {
		o := fields[i]
		d, err := f.DictOf(arr[i])
		if err != nil {
			t.FailBlob("built", data, "field %q: %v", o.name, err)
			return
		}
		val := func(n int) pdfx.Val {
			if n == 0 {
				return nil
			}
			return o.vals[n].val
		}
		ft, ff := map[string]string{"text": "Tx", "choice": "Ch"}[s.Kind], map[string]int{"radio": 1 << 15, "button": 1 << 16}[s.Kind]
		if ft == "" {
			ft = "Btn"
		}
		ff |= s.At["req"]<<1 | s.At["ro"]
		flags, _ := d["Ff"].(int)
		max, _ := d["MaxLen"].(int)
		if !fbText(f, d["T"], o.name) || d["FT"] != pdfx.Name(ft) || flags != ff || max != o.maxs[s.At["max"]] {
			t.FailBlob("built", data, "field %q (%s) is %.300s; should have flags %#x, maximum length %d", o.name, s.Kind, pdfx.Canon(d), ff, o.maxs[s.At["max"]])
		}
		if !fbSame(f, d["V"], val(s.At["v"])) || !fbSame(f, d["DV"], val(s.At["dv"])) {
			t.FailBlob("built-value", data, "field %q (%s) is %.300s; should have value %.100s, default %.100s", o.name, s.Kind, pdfx.Canon(d), pdfx.Canon(val(s.At["v"])), pdfx.Canon(val(s.At["dv"])))
		}
		if rc, _ := d["Rect"].(pdfx.Arr); !reflect.DeepEqual(fbNums(rc), o.rect) {
			t.FailBlob("built", data, "field %q is at %s, should be at %v", o.name, pdfx.Canon(d["Rect"]), o.rect)
		}
		opt, _ := d["Opt"].(pdfx.Arr)
		ok := len(opt) == len(o.opts)
		for k := range o.opts {
			ok = ok && fbText(f, opt[k], o.opts[k])
		}
		if !ok {
			t.FailBlob("built", data, "field %q has options %s, should have %q", o.name, pdfx.Canon(d["Opt"]), o.opts)
		}
		what := ""
		if s.Act == 0 {
			if d["A"] != nil {
				what = "an action"
			}
		} else {
			what = o.want[s.Act](f, d["A"])
		}
		aa := pdfx.Dict{}
		if x, err := f.DictOf(d["AA"]); err == nil {
			aa = x
		}
		for ev, n := range s.Aa {
			if n == 0 {
				if aa[ev] != nil {
					what += " an action for " + ev
				}
			} else if w := o.want[(n-1)%(fbActions/2)+1](f, aa[ev]); w != "" {
				what += ev + ": " + w
			}
		}
		if what != "" {
			t.FailBlob("built-action", data, "field %q (%.300s): %s", o.name, pdfx.Canon(d), what)
		}
		ap := pdfx.Dict{}
		if x, err := f.DictOf(d["AP"]); err == nil {
			ap = x
		}
		if s.Ap == 0 {
			if len(ap) > 0 {
				t.FailBlob("built-appearance", data, "field %q has an appearance", o.name)
			}
		} else if ap["N"] != (pdfx.Ref{N: o.ap}) {
			t.FailBlob("built-appearance", data, "field %q has appearance %s, should have object %d", o.name, pdfx.Canon(ap), o.ap)
		} else if w := o.look(f, ap["N"]); w != "" {
			t.FailBlob("built-appearance", data, "field %q's appearance: %s", o.name, w)
		}
		t.Count("built_fields", 1)
	}
	if t.Failed() {
		return
	}
	t.Do("read", data, func() {
		af, err := acroform.ExtractAcroForm(data, nil, false)
		if err != nil {
			t.FailBlob("built-read", data, "extracting: %v", err)
			return
		}
		if len(af.Fields) != len(fields) {
			t.FailBlob("built-read", data, "%d fields read, %d built", len(af.Fields), len(fields))
			return
		}
		schema := af.ToFormSchema()
		q := map[string]types.Question{}
		for _, x := range schema.Questions {
			q[x.Name] = x
		}
		values := af.GetFieldValues()
		for i, s := range tr.Fields {
			o, fd := fields[i], af.Fields[i]
			kind := map[string]string{"check": "checkbox", "radio": "radio", "button": "button", "choice": "select", "text": "text"}[s.Kind]
			x := q[o.name]
			if fd.T != o.name || fd.ObjectNum != o.num || fd.MaxLen != o.maxs[s.At["max"]] || !reflect.DeepEqual(fd.Rect, o.rect) ||
				string(x.Type) != kind || x.Required != (s.At["req"] == 1) || x.ReadOnly != (s.At["ro"] == 1) || len(x.Options) != len(o.opts) {
				t.FailBlob("built-read", data, "field %q (%s, %v) was read as %+v, question %+v", o.name, s.Kind, s.At, fd, x)
			}
			for k := range x.Options {
				if x.Options[k].Value != o.opts[k] {
					t.FailBlob("built-read", data, "field %q's options are %v, should be %q", o.name, x.Options, o.opts)
				}
			}
			if !reflect.DeepEqual(values[o.name], o.vals[s.At["v"]].read) || !reflect.DeepEqual(fd.DV, o.vals[s.At["dv"]].read) {
				t.FailBlob("built-read", data, "field %q: value %q, default %q; should be %q, %q", o.name, values[o.name], fd.DV, o.vals[s.At["v"]].read, o.vals[s.At["dv"]].read)
			}
		}
	})
}

func fbNums(a pdfx.Arr) []float64 {
	o := []float64{}
	for _, x := range a {
		f, _ := pdfx.Num(x)
		o = append(o, f)
	}
	return o
}

// fbLook checks an appearance: a form of the given size whose content is sound
// and, with a font, shows the text in it.
func fbLook(w, h float64, font string, size float64, show string) func(*pdfx.File, pdfx.Val) string {
	return func(f *pdfx.File, x pdfx.Val) string {
		x, _ = f.Deref(x)
		s, ok := x.(*pdfx.Stream)
		if !ok {
			return "no stream"
		}
		box, _ := s.D["BBox"].(pdfx.Arr)
		if s.D["Subtype"] != pdfx.Name("Form") || !reflect.DeepEqual(fbNums(box), []float64{0, 0, w, h}) {
			return fmt.Sprintf("%.200s is not a form of %v x %v", pdfx.Canon(s.D), w, h)
		}
		body, err := s.Decode()
		if err != nil {
			return err.Error()
		}
		ops, err := pdfx.Operators(body)
		if err != nil {
			return fmt.Sprintf("content %q: %v", body, err)
		}
		if err := pdfx.Balanced(ops); err != nil {
			return fmt.Sprintf("content %q: %v", body, err)
		}
		shown := ""
		n := 0
		for _, op := range ops {
			switch op.Op {
			case "Tf":
				name, _ := op.Args[0].(pdfx.Name)
				at, _ := pdfx.Num(op.Args[1])
				res, _ := f.DictOf(s.D["Resources"])
				fonts, _ := f.DictOf(res["Font"])
				fd, err := f.DictOf(fonts[string(name)])
				if err != nil || fd["Type"] != pdfx.Name("Font") || fd["BaseFont"] != pdfx.Name(font) || at != size {
					return fmt.Sprintf("font %q at %v is %s (%v); should be %s at %v", name, at, pdfx.Canon(fd), err, font, size)
				}
			case "Tj":
				s, _ := op.Args[0].(pdfx.Str)
				shown += pdfx.WinAnsi(s)
				n++
			}
		}
		if font != "" && (n != 1 || shown != show) || font == "" && n > 0 {
			return fmt.Sprintf("shows %q, should show %q", shown, show)
		}
		return ""
	}
}
