package main

import (
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/benedoc-inc/pdfer/forms"
	"github.com/benedoc-inc/pdfer/forms/acroform"
	"github.com/benedoc-inc/pdfer/types"
	"verif/harness/pdfx"
)

// Forms, sheets and data of FormValidation.tla: after every change of the data
// the validators must report exactly the names the specification says.

type fvKey struct {
	K string `json:"k"`
	I int    `json:"i"`
}
type fvVal struct {
	T string `json:"t"`
	N int    `json:"n"`
	S []int  `json:"s"`
}
type fvNode struct {
	Up   int    `json:"up"`
	Kind string `json:"kind"`
	Req  string `json:"req"`
	Max  int    `json:"max"`
}
type fvTrace struct {
	Form  []fvNode `json:"form"`
	Sheet []struct {
		Kind string `json:"kind"`
		Req  bool   `json:"req"`
		Min  int    `json:"min"`
		Max  int    `json:"max"`
		Lo   int    `json:"lo"`
		Hi   int    `json:"hi"`
		Pat  int    `json:"pat"`
	} `json:"sheet"`
	Log []struct {
		A    string  `json:"a"`
		Key  fvKey   `json:"key"`
		V    fvVal   `json:"v"`
		Errs []fvKey `json:"errs"`
	} `json:"log"`
}

// fvText is a text of n characters; class 1 has no digits, class 2 has some.
func fvText(r *rand.Rand, n, class int) string {
	alphabet := []rune("abcxyz éüñßΩжд中文字€“")
	var o []rune
	for i := 0; i < n; i++ {
		o = append(o, alphabet[r.Intn(len(alphabet))])
	}
	if n > 0 && o[0] == ' ' {
		o[0] = 'a'
	}
	if class == 2 {
		o[r.Intn(n)] = rune('0' + r.Intn(10))
	}
	return string(o)
}

func fvNum(r *rand.Rand, n int) interface{} {
	switch r.Intn(3) {
	case 0:
		return n
	case 1:
		return float64(n)
	}
	return strconv.Itoa(n)
}

// fvScale turns the numbers 0, 1, 2 … of a schema into numbers in the same order.
type fvScale struct{ a, b float64 }

var fvScales = []fvScale{{1, 0}, {1, 0}, {1, -3}, {.125, -.5}, {1, 1 << 24}, {1, 9007199254740000}, {1e-9, 0}, {1e-9, 1}, {1e15, -3e15}, {7e-6, 3}, {1.0 / 3, -1}}

func (s fvScale) at(n int) float64 { return float64(n)*s.a + s.b }

func (s fvScale) value(r *rand.Rand, n int) interface{} {
	x := s.at(n)
	whole := x == float64(int64(x))
	switch k := r.Intn(5); {
	case k == 0 && whole:
		return int(x)
	case k == 1:
		return strconv.FormatFloat(x, 'f', -1, 64)
	case k == 2:
		return strconv.FormatFloat(x, 'g', -1, 64)
	}
	return x
}

const fvReq, fvRadio, fvCombo, fvEdit, fvMulti = 1 << 1, 1 << 15, 1 << 17, 1 << 18, 1 << 21

type fvForm struct {
	t    *T
	r    *rand.Rand
	tr   *fvTrace
	part []string
	opts [][]string // field -> values of its options, from 1
	data []byte
	pw   []byte
}

func (a *fvForm) name(i int) string {
	n := a.tr.Form[i-1]
	if n.Up == 0 {
		return a.part[i]
	}
	return a.name(n.Up) + "." + a.part[i]
}

// build makes the document with the form.
func (a *fvForm) build() {
	r, tr := a.r, a.tr
	used := map[string]bool{}
	a.part, a.opts = []string{""}, [][]string{nil}
	for i := range tr.Form {
		for {
			s := []string{"f" + strconv.Itoa(i), "name", "Größe", "a b", "(x)", "Kids", "f" + strconv.Itoa(r.Intn(100))}[r.Intn(7)]
			if !used[s] {
				used[s] = true
				a.part = append(a.part, s)
				break
			}
		}
		var o []string
		for j := 0; j < 12; j++ {
			o = append(o, fmt.Sprintf("%s%d", []string{"opt", "Ö", "A (b)", "", "x.y "}[r.Intn(5)], j))
		}
		a.opts = append(a.opts, o)
	}
	st := &specTree{Kids: [][2]interface{}{{float64(treeRoot), []interface{}{float64(1)}}}}
	d := genTreeDoc(r, st, treeOpts{gens: true, tag: "form"})
	if r.Intn(4) == 0 {
		d.pw = []byte([]string{"", "secret"}[r.Intn(2)])
		d.crypt = newCrypt(r, handlerCfg(r, []string{"R3", "R4aes", "R6"}[r.Intn(3)]), d.pw, []byte("owner"))
	}
	a.pw = d.pw
	maybeRef := func(v pdfx.Val, k int) pdfx.Val {
		if r.Intn(k) == 0 {
			return d.add(v)
		}
		return v
	}
	ref := make([]pdfx.Ref, len(tr.Form)+1)
	for i := range tr.Form {
		ref[i+1] = d.reserve(r)
	}
	kids := map[int]pdfx.Arr{}
	for i, n := range tr.Form {
		kids[n.Up] = append(kids[n.Up], ref[i+1])
	}
	var annots pdfx.Arr
	for i, n := range tr.Form {
		i++
		v := pdfx.Dict{"T": textStr(r, a.part[i])}
		if n.Up != 0 {
			v["Parent"] = ref[n.Up]
		}
		if n.Max > 0 {
			v["MaxLen"] = maybeRef(n.Max, 5)
		}
		ff := map[string]int{"combo": fvCombo, "edit": fvCombo | fvEdit, "multi": fvMulti, "radio": fvRadio, "radioopt": fvRadio}[n.Kind]
		if n.Req == "yes" {
			ff |= fvReq
		}
		if n.Kind == "group" && len(kids[i]) == 0 { // what has no kids could be a field
			v["Ff"] = 0
		} else if n.Req != "up" {
			if n.Kind == "text" && r.Intn(3) == 0 {
				ff |= 1 << 12 // multiline
			}
			if ff != 0 || r.Intn(2) == 0 || n.Up != 0 {
				v["Ff"] = maybeRef(ff, 6)
			}
		}
		if n.Kind == "group" {
			v["Kids"] = maybeRef(kids[i], 3)
			if len(kids[i]) == 0 {
				v["Kids"] = pdfx.Arr{}
			}
			d.set(ref[i].N, v)
			continue
		}
		ft := map[string]string{"text": "Tx", "check": "Btn", "radio": "Btn", "radioopt": "Btn", "sig": "Sig"}[n.Kind]
		if ft == "" {
			ft = "Ch"
		}
		v["FT"] = maybeRef(pdfx.Name(ft), 8)
		if ft == "Ch" || n.Kind == "radioopt" {
			var o pdfx.Arr
			for _, s := range a.opts[i][1:4] {
				if ft == "Ch" && r.Intn(2) == 0 {
					o = append(o, maybeRef(pdfx.Arr{textStr(r, s), textStr(r, "shown "+s)}, 6))
				} else {
					o = append(o, textStr(r, s))
				}
			}
			v["Opt"] = maybeRef(o, 4)
		}
		if r.Intn(2) == 0 && ft != "Btn" { // one widget, merged with the field
			v["Subtype"], v["Rect"] = pdfx.Name("Widget"), pdfx.Arr{0, 0, 10, 10}
			annots = append(annots, ref[i])
		} else {
			var ws pdfx.Arr
			for k := 1 + r.Intn(3); k > 0; k-- {
				w := d.add(pdfx.Dict{"Subtype": pdfx.Name("Widget"), "Rect": pdfx.Arr{0, 0, 10, 10}, "Parent": ref[i]})
				ws, annots = append(ws, w), append(annots, w)
			}
			v["Kids"] = maybeRef(ws, 4)
		}
		d.set(ref[i].N, v)
	}
	if annots != nil {
		d.objs[d.num[1]].(pdfx.Dict)["Annots"] = annots
	}
	d.objs[d.root.N].(pdfx.Dict)["AcroForm"] = maybeRef(pdfx.Dict{"Fields": maybeRef(kids[0], 3), "DA": pdfx.Str("/Helv 0 Tf")}, 2)
	a.data = d.serialise(r)
}

// value is what a caller gives for a value of the specification.
func (a *fvForm) value(i int, v fvVal) interface{} {
	r := a.r
	switch v.T {
	case "nil":
		return nil
	case "empty":
		return ""
	case "emptylist":
		if r.Intn(2) == 0 {
			return []string{}
		}
		return []interface{}{}
	case "str":
		if i > 0 && a.tr.Form[i-1].Kind == "check" {
			return []interface{}{true, false, "On", "Yes"}[r.Intn(4)]
		}
		return fvText(r, v.N, 1)
	case "num":
		return fvNum(r, v.N)
	case "other":
		if k := a.tr.Form[i-1].Kind; strings.HasPrefix(k, "radio") || k == "check" {
			return "no such state"
		}
		if k := a.tr.Form[i-1].Kind; k == "multi" && r.Intn(2) == 0 {
			return []string{"no such option"}
		}
		return []string{"no such option", "opt", "shown ", "99"}[r.Intn(4)]
	case "opt":
		if a.tr.Form[i-1].Kind == "multi" && r.Intn(2) == 0 {
			return []interface{}{a.opts[i][v.N]}
		}
		return a.opts[i][v.N]
	}
	var list []string
	for _, n := range v.S {
		if n == 0 {
			list = append(list, "none of them")
		} else {
			list = append(list, a.opts[i][n])
		}
	}
	r.Shuffle(len(list), func(i, j int) { list[i], list[j] = list[j], list[i] })
	if r.Intn(2) == 0 {
		var o []interface{}
		for _, s := range list {
			o = append(o, s)
		}
		return o
	}
	return list
}

// reported tells which of the names errors are about.
func fvReported(errs []error, known map[string]bool) ([]string, string) {
	var o []string
	for _, err := range errs {
		var ve *acroform.ValidationError
		if errors.As(err, &ve) {
			o = append(o, ve.FieldName)
			continue
		}
		found := ""
		for name := range known {
			if strings.Contains(err.Error(), "'"+name+"'") || strings.Contains(err.Error(), strconv.Quote(name)) {
				found = name
			}
		}
		if found == "" {
			return nil, fmt.Sprintf("an error about no field: %v", err)
		}
		o = append(o, found)
	}
	sort.Strings(o)
	var u []string
	for i, s := range o {
		if i == 0 || o[i-1] != s {
			u = append(u, s)
		}
	}
	return u, ""
}

func init() {
	props["P19"] = func(t *T) {
		var tr fvTrace
		t.JSON(&tr)
		r := t.R
		a := &fvForm{t: t, r: r, tr: &tr}
		a.build()
		var af *acroform.AcroForm
		var form forms.Form
		if !t.Do("extract", a.data, func() {
			var err, err2 error
			af, err = acroform.ExtractAcroForm(a.data, a.pw, false)
			form, err2 = forms.Extract(a.data, a.pw, false)
			if err != nil || err2 != nil {
				t.FailBlob("extract", a.data, "extracting the form: %v, %v", err, err2)
			}
		}) || t.Failed() {
			return
		}
		schema, scale := &types.FormSchema{}, fvScales[r.Intn(len(fvScales))]
		for i, q := range tr.Sheet {
			x := types.Question{Name: fmt.Sprintf("%sq%d", []string{"", "a.", "ä"}[r.Intn(3)], i+1), Required: q.Req, Type: types.ResponseTypeText}
			rules := &types.ValidationRules{}
			if q.Kind == "number" {
				x.Type = types.ResponseTypeNumber
				if q.Lo >= 0 {
					lo := scale.at(q.Lo)
					rules.MinValue = &lo
				}
				if q.Hi >= 0 {
					hi := scale.at(q.Hi)
					rules.MaxValue = &hi
				}
			} else {
				if q.Min > 0 {
					n := q.Min
					rules.MinLength = &n
				}
				if q.Max > 0 {
					n := q.Max
					rules.MaxLength = &n
				}
				rules.Pattern = []string{"", `^[^0-9]*$`, `[0-9]`}[q.Pat]
				if r.Intn(2) == 0 {
					rules.ErrorMessage = "not like that"
				}
			}
			if *rules != (types.ValidationRules{}) || r.Intn(2) == 0 {
				x.Validation = rules
			}
			schema.Questions = append(schema.Questions, x)
		}
		data, answers := types.FormData{}, types.FormData{}
		name := func(k fvKey, sheet bool) string {
			switch {
			case k.K == "none":
				return fmt.Sprintf("nowhere%d", k.I)
			case sheet:
				return schema.Questions[k.I-1].Name
			case k.K == "part":
				return a.part[k.I]
			}
			return a.name(k.I)
		}
		for n, st := range tr.Log {
			t.Steps++
			sheet := st.A == "answer" || st.A == "retract"
			m := data
			if sheet {
				m = answers
			}
			key := name(st.Key, sheet)
			switch st.A {
			case "take", "retract":
				delete(m, key)
			case "put":
				i := st.Key.I
				if st.Key.K == "none" {
					i = 0
				}
				m[key] = a.value(i, st.V)
			case "answer":
				switch {
				case st.V.T == "str" && st.Key.K != "none":
					m[key] = fvText(r, st.V.N, st.V.S[0])
				case st.V.T == "str":
					m[key] = "x"
				case st.V.T == "num":
					m[key] = scale.value(r, st.V.N)
				default:
					m[key] = a.value(0, st.V)
				}
			}
			want := []string(nil)
			for _, k := range st.Errs {
				want = append(want, name(k, sheet))
			}
			sort.Strings(want)
			known := map[string]bool{}
			for k := range m {
				known[k] = true
			}
			for _, k := range want {
				known[k] = true
			}
			copied := types.FormData{}
			for k, v := range m {
				copied[k] = v
			}
			var first []string
			check := func(how string, run func() []error) {
				t.Do(how, a.data, func() {
					for i := 0; i < 3; i++ {
						errs := run()
						got, bad := fvReported(errs, known)
						if bad == "" && !reflect.DeepEqual(got, want) {
							bad = fmt.Sprintf("reports %q, should report %q", got, want)
						}
						var text []string
						for _, err := range errs {
							text = append(text, err.Error())
						}
						if i == 0 {
							first = text
						} else if bad == "" && !reflect.DeepEqual(first, text) {
							bad = fmt.Sprintf("says %q, then %q", first, text)
						}
						if bad != "" {
							t.FailBlob("reported", a.data, "step %d: %s of %v: %s (form %+v, sheet %+v)", n+1, how, m, bad, tr.Form, tr.Sheet)
							return
						}
					}
					if !reflect.DeepEqual(m, copied) {
						t.FailBlob("changed", a.data, "step %d: %s changed the data", n+1, how)
					}
				})
				t.Count("validations", 1)
				if len(want) > 0 {
					t.Count("with_errors", 1)
				}
			}
			if sheet {
				check("ValidateFormSchema", func() []error { return acroform.ValidateFormSchema(schema, answers) })
			} else {
				check("ValidateFormData", func() []error { return acroform.ValidateFormData(af, data) })
				check("Form.Validate", func() []error { return form.Validate(data) })
			}
			if t.Failed() {
				return
			}
		}
	}
}
