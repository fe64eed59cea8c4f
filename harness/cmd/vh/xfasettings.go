package main

import (
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/forms/xfa"
	"github.com/benedoc-inc/pdfer/types"
)

// P20: the packets of XFASettings.tla and XFATemplate.tla, read and written.

func init() { props["P20"] = xfaSettingsReplay }

// xsMap is a function of TLA+, where the empty one comes as an empty list
type xsMap map[string]string

func (m *xsMap) UnmarshalJSON(b []byte) error {
	if string(b) == "[]" {
		*m = xsMap{}
		return nil
	}
	return json.Unmarshal(b, (*map[string]string)(m))
}

type xsNode struct {
	Up    int      `json:"up"`
	El    string   `json:"el"`
	X     string   `json:"x"`
	Attrs xsMap    `json:"attrs"`
	Text  string   `json:"text"`
	At    xsMap    `json:"at"`
	List  []string `json:"list"`
	Saves []string `json:"saves"`
}

type xsTrace struct {
	Kind string               `json:"kind"`
	Tree []xsNode             `json:"tree"`
	Told [][2]json.RawMessage `json:"told"`
}

var xsWords = []string{"holiday", "label", "value of it", "script", "items", "field", "text", "pattern", "uri", "style", "config", "x"}
var xsOdd = []string{"inf", "NaN", "Infinity", "0x1p4", "-Inf", "nan", "+Inf", "0X1P-2", "1_000"}
var xsBools = []string{"true", "false", "1", "0", "yes"}

// xsText is the text a value stands for
func xsText(v string) string {
	p := strings.SplitN(v, ":", 3)
	switch p[0] {
	case "i":
		return p[1]
	case "n":
		n, _ := strconv.Atoi(p[1])
		return strconv.FormatFloat(float64(n)/4, 'f', -1, 64)
	case "b":
		return map[string]string{"1": "true", "0": "false"}[p[1]]
	case "t":
		return p[1]
	case "m":
		return p[1] + "mm"
	}
	n, _ := strconv.Atoi(p[2])
	switch p[1] {
	case "word":
		return xsWords[n%len(xsWords)] + " " + p[2]
	case "marks":
		return "a<b & \"c\" 'd' > ]] &amp; " + p[2]
	case "space":
		return "two  words\tand " + p[2]
	case "wide":
		return "Ünï 漢字 \U0001F600 " + p[2]
	case "number":
		return "00" + p[2] + ".50"
	case "bool":
		return xsBools[n%len(xsBools)]
	case "lines":
		return "line " + p[2] + "\nand more"
	case "odd":
		return xsOdd[n%len(xsOdd)]
	}
	panic("text " + v)
}

// xsValue is the value in JSON
func xsValue(v string) interface{} {
	switch v[:2] {
	case "i:", "n:":
		f, _ := strconv.ParseFloat(xsText(v), 64)
		return f
	case "b:":
		return v == "b:1"
	}
	return xsText(v)
}

// writing XML in one of many ways

type xsXML struct {
	r     *rand.Rand
	b     strings.Builder
	depth int
}

func (w *xsXML) esc(s string, quote byte) string {
	var b strings.Builder
	for _, c := range s {
		switch {
		case c == '&' || c == '<' || byte(c) == quote && c < 128 || c == '>' && quote == 0:
			switch {
			case w.r.Intn(3) == 0:
				fmt.Fprintf(&b, "&#%d;", c)
			case c == '&':
				b.WriteString("&amp;")
			case c == '<':
				b.WriteString("&lt;")
			case c == '>':
				b.WriteString("&gt;")
			default:
				fmt.Fprintf(&b, "&#x%X;", c)
			}
		case quote != 0 && (c == '\n' || c == '\t'):
			fmt.Fprintf(&b, "&#%d;", c)
		case c != ' ' && c != '\n' && c != '\t' && w.r.Intn(30) == 0:
			fmt.Fprintf(&b, "&#x%x;", c)
		default:
			b.WriteRune(c)
		}
	}
	return b.String()
}

// gap is what may stand between elements
func (w *xsXML) gap() {
	switch w.r.Intn(8) {
	case 0:
	case 1:
		w.b.WriteString("<!-- <field name=\"no\"> & more -->")
	case 2:
		w.b.WriteString(" ")
	case 3:
		w.b.WriteString("<?note none?>")
	default:
		w.b.WriteString("\n" + strings.Repeat("  ", w.depth))
	}
}

type xsAttr struct{ name, value string }

func (w *xsXML) start(name string, attrs []xsAttr, empty bool) {
	w.r.Shuffle(len(attrs), func(i, j int) { attrs[i], attrs[j] = attrs[j], attrs[i] })
	w.b.WriteString("<" + name)
	for _, a := range attrs {
		q := []byte{'"', '\''}[w.r.Intn(2)]
		w.b.WriteString([]string{" ", "\n  "}[w.r.Intn(8)/7] + a.name + []string{"=", " = "}[w.r.Intn(8)/7] + string(q) + w.esc(a.value, q) + string(q))
	}
	if empty && w.r.Intn(3) > 0 {
		w.b.WriteString([]string{"/>", " />"}[w.r.Intn(2)])
		return
	}
	w.b.WriteString(">")
	if empty {
		w.b.WriteString("</" + name + ">")
	}
}

func (w *xsXML) end(name string) { w.b.WriteString("</" + name + ">") }

// text is an element with text, which may have space around it
func (w *xsXML) text(name string, attrs []xsAttr, s string) {
	w.start(name, attrs, false)
	pad := w.r.Intn(5) == 0
	if pad {
		w.b.WriteString("\n   ")
	}
	switch w.r.Intn(6) {
	case 0:
		if !strings.Contains(s, "]]>") {
			w.b.WriteString("<![CDATA[" + s + "]]>")
			break
		}
		fallthrough
	case 1:
		cut := []rune(s)
		k := w.r.Intn(len(cut) + 1)
		w.b.WriteString(w.esc(string(cut[:k]), 0) + "<!-- c -->" + w.esc(string(cut[k:]), 0))
	default:
		w.b.WriteString(w.esc(s, 0))
	}
	if pad {
		w.b.WriteString("\n ")
	}
	w.end(name)
}

func (w *xsXML) head() {
	if w.r.Intn(2) == 0 {
		w.b.WriteString("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n")
	}
}

func (w *xsXML) bool1() string { return []string{"1", "true", "yes", "TRUE"}[w.r.Intn(4)] }

// settings writes node i of a settings packet
func (w *xsXML) settings(t *xsTrace, i int) {
	n := t.Tree[i-1]
	var attrs []xsAttr
	var names []string
	for a := range n.Attrs {
		names = append(names, a)
	}
	sort.Strings(names)
	for _, a := range names {
		v := n.Attrs[a]
		s := xsText(v)
		if v == "b:1" {
			s = w.bool1()
		} else if v == "b:0" {
			s = []string{"0", "false"}[w.r.Intn(2)]
		}
		if a == "code" && w.r.Intn(3) == 0 {
			a = "id"
		}
		attrs = append(attrs, xsAttr{a, s})
	}
	if i == 1 && w.r.Intn(3) == 0 {
		attrs = append(attrs, xsAttr{"xmlns", "http://www.xfa.org/schema/x/1.0/"})
	}
	name := n.X
	if name == "uri" && t.Tree[n.Up-1].El == "connection" && w.r.Intn(2) == 0 {
		name = "url"
	}
	if n.Text != "" {
		w.text(name, attrs, xsText(n.Text))
		return
	}
	var kids []int
	for k := range t.Tree {
		if t.Tree[k].Up == i {
			kids = append(kids, k+1)
		}
	}
	if len(kids) == 0 {
		w.start(name, attrs, true)
		return
	}
	w.start(name, attrs, false)
	w.depth++
	for _, k := range kids {
		w.gap()
		w.settings(t, k)
	}
	w.depth--
	w.gap()
	w.end(name)
}

var xsNoise = []string{
	`<font typeface="Arial" size="10pt"/>`, `<para hAlign="left"/>`, `<border><edge presence="hidden"/></border>`,
	`<assist><toolTip>a tip</toolTip></assist>`, `<extras name="e"><text name="z">extra</text></extras>`, `<margin topInset="1mm"/>`,
	`<bind match="dataRef" ref="$.x"/>`, `<format><picture>num{zz9}</picture></format>`,
}

// template writes node i of a template
func (w *xsXML) template(t *xsTrace, i int) {
	n := t.Tree[i-1]
	var attrs []xsAttr
	at := func(name, from string) {
		if v, ok := n.At[from]; ok {
			attrs = append(attrs, xsAttr{name, xsText(v)})
		}
	}
	var kids []int
	for k := range t.Tree {
		if t.Tree[k].Up == i {
			kids = append(kids, k+1)
		}
	}
	all := func() {
		w.depth++
		for _, k := range kids {
			w.gap()
			if n.El == "field" && w.r.Intn(6) == 0 {
				w.b.WriteString(xsNoise[w.r.Intn(len(xsNoise))])
			}
			w.template(t, k)
		}
		w.depth--
		w.gap()
	}
	text := xsTextOr(n.At["text"])
	switch n.El {
	case "template":
		at("title", "title")
		at("description", "description")
		at("version", "version")
		w.start("template", attrs, false)
		all()
		w.end("template")
	case "subform", "exclGroup", "area":
		if w.r.Intn(2) == 0 {
			attrs = append(attrs, xsAttr{"name", fmt.Sprintf("box%d", i)})
		}
		if w.r.Intn(2) == 0 {
			attrs = append(attrs, xsAttr{"x", "3mm"})
		}
		w.start(n.El, attrs, false)
		all()
		w.end(n.El)
	case "draw":
		w.b.WriteString("<draw name=\"d\">")
		w.gap()
		w.b.WriteString("<value>")
		w.text("text", nil, text)
		w.b.WriteString("</value>")
		if w.r.Intn(2) == 0 {
			w.b.WriteString("<caption><value><text>c</text></value></caption>")
		}
		w.gap()
		w.end("draw")
	case "field":
		at("name", "name")
		if v, ok := n.At["type"]; ok {
			if w.r.Intn(4) == 0 {
				v = strings.ToUpper(v)
			}
			attrs = append(attrs, xsAttr{"type", v})
		}
		if _, ok := n.At["required"]; ok {
			attrs = append(attrs, xsAttr{"required", []string{"1", "true", "yes", "required"}[w.r.Intn(4)]})
		} else if w.r.Intn(6) == 0 {
			attrs = append(attrs, xsAttr{"required", "0"})
		}
		hide := xsAttr{"presence", []string{"hidden", "invisible"}[w.r.Intn(2)]}
		switch n.At["access"] {
		case "readOnly":
			attrs = append(attrs, xsAttr{"access", "readOnly"})
		case "hidden":
			if w.r.Intn(2) == 0 {
				hide = xsAttr{"access", "hidden"}
			}
			attrs = append(attrs, hide)
		case "both":
			attrs = append(attrs, hide, xsAttr{"access", "readOnly"})
		case "open":
			attrs = append(attrs, xsAttr{"access", "open"})
		}
		at("page", "page")
		for _, x := range []string{"x", "y", "w", "h"} {
			at(x, x)
		}
		w.start("field", attrs, false)
		all()
		if w.r.Intn(4) == 0 {
			w.b.WriteString(xsNoise[w.r.Intn(len(xsNoise))])
		}
		w.end("field")
	case "label", "desc", "description", "value":
		w.text(n.El, nil, text)
	case "caption":
		w.start("caption", []xsAttr{{"reserve", "10mm"}}, false)
		w.gap()
		w.start("value", nil, false)
		w.gap()
		w.text("text", nil, text)
		w.gap()
		w.end("value")
		w.end("caption")
	case "valuetext":
		w.start("value", nil, false)
		w.gap()
		w.text([]string{"text", "float", "date", "integer"}[w.r.Intn(4)], nil, text)
		w.gap()
		w.end("value")
	case "items":
		lists := []func(){func() {
			w.start("items", nil, false)
			for _, v := range n.List {
				w.gap()
				w.text("text", nil, xsText(v))
			}
			w.gap()
			w.end("items")
		}}
		if len(n.Saves) > 0 {
			lists = append(lists, func() {
				w.start("items", []xsAttr{{"save", "1"}, {"presence", "hidden"}}, false)
				for _, v := range n.Saves {
					w.text("text", nil, xsText(v))
					w.gap()
				}
				w.end("items")
			})
		}
		if w.r.Intn(3) == 0 {
			lists[0], lists[len(lists)-1] = lists[len(lists)-1], lists[0]
		}
		for _, l := range lists {
			l()
			w.gap()
		}
	case "validate":
		script := n.At["custom_script"]
		inside := script != "" && w.r.Intn(2) == 0
		if script != "" && !inside {
			at("scriptTest", "custom_script")
		}
		at("messageText", "error_message")
		at("minLength", "min_length")
		at("maxLength", "max_length")
		at("minValue", "min_value")
		at("maxValue", "max_value")
		pattern := n.At["pattern"]
		if pattern == "" && !inside {
			w.start("validate", attrs, true)
			break
		}
		w.start("validate", attrs, false)
		w.gap()
		if pattern != "" {
			w.text("pattern", nil, xsText(pattern))
			w.gap()
		}
		if inside {
			w.text("script", nil, xsText(script))
			w.gap()
		}
		w.end("validate")
	case "event", "calculate":
		if n.El == "event" {
			attrs = append(attrs, xsAttr{"activity", n.At["activity"]})
			if w.r.Intn(2) == 0 {
				attrs = append(attrs, xsAttr{"name", "ev"})
			}
		}
		w.start(n.El, attrs, false)
		w.gap()
		if s := n.At["script"]; s != "" {
			w.text("script", []xsAttr{{"contentType", "application/x-javascript"}}, xsText(s))
			w.gap()
		}
		w.end(n.El)
	case "ui":
		w.start("ui", nil, false)
		w.gap()
		switch wi := n.At["widget"]; wi {
		case "multiLine":
			w.start("textEdit", []xsAttr{{"multiLine", "1"}}, true)
		case "textEdit":
			if w.r.Intn(2) == 0 {
				attrs = []xsAttr{{"multiLine", "0"}}
			}
			w.start("textEdit", attrs, true)
		case "choiceList":
			w.start(wi, []xsAttr{{"open", "onEntry"}}, true)
		default:
			w.b.WriteString("<" + wi + "><border/></" + wi + ">")
		}
		w.gap()
		w.end("ui")
	default:
		panic("element " + n.El)
	}
}

func xsTextOr(v string) string {
	if v == "" {
		return ""
	}
	return xsText(v)
}

// flattening: path -> value, the JSON of what the library tells

var xsSilent = map[string]bool{"id": true, "form_type": true, "total_pages": true, "priority": true, "target": true, "expression": true}

func xsFlatten(v interface{}) (map[string]interface{}, error) {
	b, err := json.Marshal(v)
	if err != nil {
		return nil, err
	}
	var x interface{}
	if err := json.Unmarshal(b, &x); err != nil {
		return nil, err
	}
	out := map[string]interface{}{}
	xsFlat(out, nil, x)
	return out, nil
}

func xsFlat(out map[string]interface{}, p []string, v interface{}) {
	at := strings.Join(p, "/")
	last := ""
	if len(p) > 0 {
		last = p[len(p)-1]
	}
	switch x := v.(type) {
	case map[string]interface{}:
		if len(p) > 0 && last != "properties" && last != "metadata" {
			out[at] = "{}"
		}
		for k, y := range x {
			if len(p) > 0 && (p[0] == "questions" || p[0] == "rules" || p[0] == "metadata") && last != "properties" && xsSilent[k] {
				continue
			}
			if k == "type" && len(p) > 2 && p[len(p)-2] == "actions" {
				continue
			}
			xsFlat(out, append(append([]string(nil), p...), k), y)
		}
	case []interface{}:
		for k, y := range x {
			xsFlat(out, append(append([]string(nil), p...), strconv.Itoa(k+1)), y)
		}
	case nil:
	case string:
		if x != "" {
			out[at] = x
		}
	case bool:
		if x || !(last == "required" || last == "read_only" || last == "hidden") {
			out[at] = x
		}
	default:
		out[at] = x
	}
}

// xsTold is what the specification tells, in the same form
func xsTold(t *xsTrace) map[string]interface{} {
	out := map[string]interface{}{}
	for _, f := range t.Told {
		var p []string
		var v string
		if json.Unmarshal(f[0], &p) != nil || json.Unmarshal(f[1], &v) != nil {
			panic("told")
		}
		at := strings.Join(p, "/")
		if v == "{}" {
			out[at] = v
			continue
		}
		out[at] = xsValue(v)
	}
	return out
}

func xsDiff(want, got map[string]interface{}) string {
	var d []string
	for k, v := range want {
		if g, ok := got[k]; !ok {
			d = append(d, fmt.Sprintf("%s: lost %q", k, fmt.Sprint(v)))
		} else if !reflect.DeepEqual(v, g) {
			d = append(d, fmt.Sprintf("%s: %T %q became %T %q", k, v, fmt.Sprint(v), g, fmt.Sprint(g)))
		}
	}
	for k, v := range got {
		if _, ok := want[k]; !ok {
			d = append(d, fmt.Sprintf("%s: came up as %q", k, fmt.Sprint(v)))
		}
	}
	sort.Strings(d)
	if len(d) > 6 {
		d = append(d[:6], fmt.Sprintf("and %d more", len(d)-6))
	}
	return strings.Join(d, "; ")
}

// xsBuild makes the JSON of what is told
func xsBuild(told map[string]interface{}) interface{} {
	type tree struct {
		kids map[string]*tree
		v    interface{}
	}
	root := &tree{kids: map[string]*tree{}}
	for at, v := range told {
		n := root
		for _, s := range strings.Split(at, "/") {
			if n.kids[s] == nil {
				n.kids[s] = &tree{kids: map[string]*tree{}}
			}
			n = n.kids[s]
		}
		if v != "{}" {
			n.v = v
		}
	}
	var build func(n *tree, name string) interface{}
	lists := map[string]bool{"questions": true, "rules": true, "actions": true, "options": true, "locales": true, "holidays": true, "connections": true, "styles": true}
	build = func(n *tree, name string) interface{} {
		if len(n.kids) == 0 && n.v != nil {
			return n.v
		}
		if lists[name] {
			var l []interface{}
			for k := 1; n.kids[strconv.Itoa(k)] != nil; k++ {
				l = append(l, build(n.kids[strconv.Itoa(k)], ""))
			}
			return l
		}
		m := map[string]interface{}{}
		for k, x := range n.kids {
			m[k] = build(x, k)
		}
		return m
	}
	return build(root, "")
}

type xsFormat struct {
	parse func(string) (interface{}, error)
	write func(interface{}) (string, error)
	empty func() interface{}
}

var xsFormats = map[string]xsFormat{
	"config": {func(s string) (interface{}, error) { return xfa.ParseXFAConfig(s, false) },
		func(v interface{}) (string, error) { return xfa.ConfigToXFA(v.(*types.XFAConfig), false) }, func() interface{} { return &types.XFAConfig{} }},
	"localeSet": {func(s string) (interface{}, error) { return xfa.ParseXFALocaleSet(s, false) },
		func(v interface{}) (string, error) { return xfa.LocaleSetToXFA(v.(*types.XFALocaleSet), false) }, func() interface{} { return &types.XFALocaleSet{} }},
	"connectionSet": {func(s string) (interface{}, error) { return xfa.ParseXFAConnectionSet(s, false) },
		func(v interface{}) (string, error) { return xfa.ConnectionSetToXFA(v.(*types.XFAConnectionSet), false) }, func() interface{} { return &types.XFAConnectionSet{} }},
	"stylesheet": {func(s string) (interface{}, error) { return xfa.ParseXFAStylesheet(s, false) },
		func(v interface{}) (string, error) { return xfa.StylesheetToXFA(v.(*types.XFAStylesheet), false) }, func() interface{} { return &types.XFAStylesheet{} }},
	"template": {func(s string) (interface{}, error) { return xfa.ParseXFAForm(s, false) },
		func(v interface{}) (string, error) { return xfa.FormToXFA(v.(*types.FormSchema), false) }, func() interface{} { return &types.FormSchema{} }},
}

func xfaSettingsReplay(t *T) {
	var tr xsTrace
	t.JSON(&tr)
	f := xsFormats[tr.Kind]
	want := xsTold(&tr)
	w := &xsXML{r: t.R}
	w.head()
	if tr.Kind == "template" {
		w.template(&tr, 1)
	} else {
		w.settings(&tr, 1)
	}
	doc := w.b.String()
	t.Count(tr.Kind, 1)
	t.Steps = len(tr.Tree)
	read := func(what, s string) interface{} {
		var v interface{}
		var err error
		t.Do("parse-"+tr.Kind, []byte(s), func() { v, err = f.parse(s) })
		if err != nil {
			t.FailBlob(tr.Kind+"-"+what, []byte(s), "%s: %v", what, err)
			return nil
		}
		got, err := xsFlatten(v)
		if err != nil {
			t.FailBlob(tr.Kind+"-json", []byte(s), "%s: what was read does not go into JSON: %v", what, err)
			return nil
		}
		if d := xsDiff(want, got); d != "" {
			t.FailBlob(tr.Kind+"-"+what, []byte(s), "%s: %s", what, d)
			return nil
		}
		return v
	}
	write := func(what string, v interface{}) {
		before, _ := xsFlatten(v)
		var s, again string
		var err error
		t.Do("write-"+tr.Kind, []byte(doc), func() {
			if s, err = f.write(v); err == nil {
				again, err = f.write(v)
			}
		})
		if err != nil {
			t.FailBlob(tr.Kind+"-write", []byte(doc), "%s: writing: %v", what, err)
			return
		}
		if s != again {
			t.FailBlob(tr.Kind+"-twice", []byte(s), "%s: written twice it differs: %q", what, again)
		}
		if after, _ := xsFlatten(v); xsDiff(before, after) != "" {
			t.FailBlob(tr.Kind+"-changed", []byte(s), "%s: writing changed it: %s", what, xsDiff(before, after))
		}
		if e := xsWellFormed(s, tr.Kind); e != "" {
			t.FailBlob(tr.Kind+"-xml", []byte(s), "%s: what was written: %s", what, e)
		}
		read(what, s)
	}
	if v := read("read", doc); v != nil {
		write("read and written", v)
	}
	if tr.Kind == "template" {
		xsFields(t, doc, want)
	}
	b, err := json.Marshal(xsBuild(want))
	if err != nil {
		panic(err)
	}
	v := f.empty()
	if err := json.Unmarshal(b, v); err != nil {
		panic(fmt.Sprint(err, string(b)))
	}
	switch x := v.(type) {
	case *types.XFAStylesheet:
		for _, s := range x.Styles {
			for k, p := range s.Properties {
				m, ok := p.(map[string]interface{})
				if !ok {
					continue
				}
				to := map[string]interface{}{"font": &types.XFAStyleFont{}, "border": &types.XFAStyleBorder{}, "margin": &types.XFAMargin{},
					"padding": &types.XFAPadding{}, "position": &types.XFAPosition{}, "size": &types.XFASize{}}[k]
				b, _ := json.Marshal(m)
				if err := json.Unmarshal(b, to); err != nil {
					panic(err)
				}
				s.Properties[k] = to
			}
		}
	case *types.FormSchema:
		for i := range x.Questions {
			x.Questions[i].ID = fmt.Sprintf("q %d.", i)
		}
		for i := range x.Rules {
			x.Rules[i].ID = fmt.Sprintf("r%d", i)
			for _, q := range x.Questions {
				// the field of a rule may be told by its ID as well as by its name
				if x.Rules[i].Source == q.Name && t.R.Intn(2) == 0 {
					x.Rules[i].Source = q.ID
				}
			}
		}
	}
	write("made and written", v)
}

// xsFields checks the list of fields read from a template
func xsFields(t *T, doc string, want map[string]interface{}) {
	var fields []types.FormField
	var err error
	t.Do("parse-fields", []byte(doc), func() { fields, err = parse.ParseXFAFields(doc, false) })
	if err != nil {
		t.FailBlob("fields-read", []byte(doc), "fields: %v", err)
		return
	}
	said := map[string]interface{}{}
	got := map[string]interface{}{}
	for k, v := range want {
		p := strings.Split(k, "/")
		if len(p) != 3 || p[0] != "questions" {
			continue
		}
		switch p[2] {
		case "name", "read_only", "default":
			said[p[1]+"/"+p[2]] = fmt.Sprint(v)
		}
	}
	for i, f := range fields {
		at := strconv.Itoa(i + 1)
		if _, ok := want["questions/"+at+"/name"]; ok {
			got[at+"/name"] = f.Name
		}
		if f.ReadOnly {
			got[at+"/read_only"] = "true"
		}
		if f.DefaultValue != nil {
			got[at+"/default"] = fmt.Sprint(f.DefaultValue)
		}
		if f.Required != (want["questions/"+at+"/required"] == true) {
			t.FailBlob("fields-required", []byte(doc), "field %q is told to be required: %v", f.Name, f.Required)
		}
	}
	if d := xsDiff(said, got); d != "" {
		t.FailBlob("fields-list", []byte(doc), "fields: %s", d)
	}
}

// xsWellFormed tells what is wrong with XML
func xsWellFormed(s, root string) string {
	d := xml.NewDecoder(strings.NewReader(s))
	depth, roots := 0, 0
	for {
		tok, err := d.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			return err.Error()
		}
		switch x := tok.(type) {
		case xml.StartElement:
			if depth == 0 {
				roots++
				if x.Name.Local != root {
					return "the root is " + x.Name.Local
				}
			}
			depth++
		case xml.EndElement:
			depth--
		}
	}
	if roots != 1 {
		return fmt.Sprintf("%d roots", roots)
	}
	return ""
}
