package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	"github.com/benedoc-inc/pdfer/core/compare"
	"github.com/benedoc-inc/pdfer/types"
	"verif/harness/pdfx"
)

// P13: pairs of documents of Compare.tla, compared under its options.

func init() { props["P13"] = compareReplay }

type cmEl struct {
	K  string `json:"k"`
	W  int    `json:"w"`
	V  int    `json:"v"`
	C  int    `json:"c"`
	S  int    `json:"s"`
	At int    `json:"at"`
	St int    `json:"st"`
	J  int    `json:"j"`
}

type cmPage struct {
	Size int    `json:"size"`
	Rot  int    `json:"rot"`
	Els  []cmEl `json:"els"`
}

type cmDoc struct {
	Pages []cmPage `json:"pages"`
	Meta  []int    `json:"meta"`
	Marks []struct {
		T    int `json:"t"`
		To   int `json:"to"`
		Deep int `json:"deep"`
	} `json:"marks"`
	Fields []int `json:"fields"`
}

type cmOpts struct {
	Case  bool   `json:"case"`
	Space bool   `json:"space"`
	TTol  int    `json:"ttol"`
	GTol  int    `json:"gtol"`
	Gran  string `json:"gran"`
	Meta  string `json:"meta"`
	Sens  string `json:"sens"`
	Moves bool   `json:"moves"`
}

type cmCount struct {
	El cmEl
	N  int
}

func (c *cmCount) UnmarshalJSON(b []byte) error {
	var raw [2]json.RawMessage
	if err := json.Unmarshal(b, &raw); err != nil {
		return err
	}
	if err := json.Unmarshal(raw[0], &c.El); err != nil {
		return err
	}
	return json.Unmarshal(raw[1], &c.N)
}

type cmTold struct {
	O         cmOpts      `json:"o"`
	A         cmDoc       `json:"a"`
	B         cmDoc       `json:"b"`
	Same      bool        `json:"same"`
	SamePages bool        `json:"samepages"`
	Meta      []int       `json:"meta"`
	Marks     bool        `json:"marks"`
	Fields    []int       `json:"fields"`
	Less      [][]cmCount `json:"less"`
	More      [][]cmCount `json:"more"`
}

// cmWorld says what the abstract things are.
type cmWorld struct {
	t      *T
	r      *rand.Rand
	words  map[int]string
	notes  map[int]string
	meta   map[[2]int]string
	marks  map[int]string
	fields map[[2]int]string
	names  map[int]string
	custom string
	// what carries a difference: of a note its /Contents, /Subj or /T; of a bookmark where it leads,
	// its address or the place on the page; whether the sixth datum is a custom one too; rows of images
	noteKey  string
	markMode int
	custom2  string
	tall     int
	plain    bool // notes of the first look have no colour
	pixels map[[2]int][]byte
	origin [2]float64
	cell   [2]float64
}

// cmFile is a document in one of its many forms.
type cmFile struct {
	src, pw []byte
	images  []map[string]cmEl // per page, what a resource name stands for
}

func (w *cmWorld) word(e cmEl) string {
	s := w.words[e.W]
	if s == "" {
		for s == "" {
			n := 22 + w.r.Intn(20)
			b := []byte(fmt.Sprintf("%c", 'a'+e.W))
			for len(b) < n {
				switch w.r.Intn(9) {
				case 0:
					b = append(b, ' ', byte('a'+w.r.Intn(26)))
				case 1:
					b = append(b, "(.\\\xe4)/0"[w.r.Intn(7)], byte('a'+w.r.Intn(26)))
				default:
					b = append(b, byte('a'+w.r.Intn(26)))
				}
			}
			s = string(b)
		}
		w.words[e.W] = s
	}
	b := []byte(s)
	if e.V == 2 { // one letter differs
		for i := 12; i < len(b); i++ {
			if b[i] >= 'a' && b[i] <= 'z' {
				b[i] = 'a' + (b[i]-'a'+13)%26
				break
			}
		}
	}
	if e.C == 1 {
		for i := range b {
			if b[i] >= 'a' && b[i] <= 'z' || b[i] == 0xe4 {
				b[i] -= 32
			}
		}
	}
	if e.S == 1 {
		b = append(append(append([]byte{}, b[:2]...), ' '), b[2:]...)
	}
	return string(b)
}

func cmText(s string) string { return pdfx.WinAnsi([]byte(s)) }

func cmMemo[K comparable](m map[K]string, k K, f func() string) string {
	for i := 0; m[k] == ""; i++ {
		m[k] = f()
		for k2, v := range m {
			if k2 != k && v == m[k] || strings.TrimSpace(m[k]) == "" {
				m[k] = ""
				break
			}
		}
		if i > 30 {
			m[k] = fmt.Sprint("value ", k)
		}
	}
	return m[k]
}

func (w *cmWorld) image(e cmEl) []byte {
	k := [2]int{e.W, e.V}
	if w.pixels[k] == nil {
		b := make([]byte, (2+e.W)*w.tall)
		for {
			w.r.Read(b)
			for i := range b {
				if w.r.Intn(3) == 0 {
					b[i] = byte(e.V)
				}
			}
			if o := w.pixels[[2]int{e.W, 3 - e.V}]; o != nil && w.r.Intn(2) == 0 { // differs in one byte
				copy(b, o)
				b[[]int{w.r.Intn(len(b)), len(b) - 1}[w.r.Intn(2)]] ^= byte(1 + w.r.Intn(255))
			}
			if !bytes.Equal(b, w.pixels[[2]int{e.W, 3 - e.V}]) {
				break
			}
		}
		w.pixels[k] = b
	}
	return w.pixels[k]
}

// cmCells are the distances between neighbouring places.  All are larger than a tolerance and twice
// the jitter; the small ones are moves that a wider tolerance would miss.
var cmCells = [][2]float64{{100, 100}, {8, 8}, {8, 0}, {-8, 8}, {0, 8}, {12, 0}, {0, 30}, {30, 30}}

func (w *cmWorld) place(e cmEl) (x, y float64) {
	return w.origin[0] + w.cell[0]*float64(e.At) + float64(e.J), w.origin[1] + w.cell[1]*float64(e.At) - float64(e.J)
}

func cmNum(x float64) string { return fmt.Sprint(math.Round(x*1000) / 1000) }

func cmPerm(r *rand.Rand, n int, shuffle bool) []int {
	if shuffle {
		return r.Perm(n)
	}
	o := make([]int, n)
	for i := range o {
		o[i] = i
	}
	return o
}

func (w *cmWorld) build(doc cmDoc) *cmFile {
	r := w.r
	tr := &specTree{}
	inner, todo := treeRoot, []interface{}{}
	for i := range doc.Pages {
		todo = append(todo, float64(i+1))
	}
	// any tree with these leaves
	var grow func(n int, ks []interface{})
	grow = func(n int, ks []interface{}) {
		var out []interface{}
		for len(ks) > 0 {
			k := 1 + r.Intn(len(ks))
			if n < treeRoot+5 && r.Intn(3) == 0 {
				inner++
				m := inner
				grow(m, ks[:k])
				out = append(out, float64(m))
				ks = ks[k:]
			} else {
				out = append(out, ks[0])
				ks = ks[1:]
			}
		}
		tr.Kids = append(tr.Kids, [2]interface{}{float64(n), out})
	}
	grow(treeRoot, todo)
	d := genTreeDoc(r, tr, treeOpts{gens: true, decoys: r.Intn(3) == 0, tag: "c"})
	d.fixed = "1.7"
	f := &cmFile{}
	maybe := func(v pdfx.Val) pdfx.Val {
		if r.Intn(4) == 0 {
			return d.add(v)
		}
		return v
	}
	stream := func(dict pdfx.Dict, b []byte) pdfx.Ref {
		st := &pdfx.Stream{D: dict, Raw: append([]byte(nil), b...)}
		switch r.Intn(3) {
		case 0:
			st.Raw = pdfx.Deflate(st.Raw)
			st.D["Filter"] = pdfx.Name("FlateDecode")
		case 1:
			st.Raw = []byte(fmt.Sprintf("%x>", b))
			st.D["Filter"] = pdfx.Arr{pdfx.Name("ASCIIHexDecode")}
		}
		return d.add(st)
	}
	font := func(base string) pdfx.Val {
		return maybe(pdfx.Dict{"Type": pdfx.Name("Font"), "Subtype": pdfx.Name("Type1"), "BaseFont": pdfx.Name(base), "Encoding": pdfx.Name("WinAnsiEncoding")})
	}
	fonts := maybe(pdfx.Dict{"F1": font("Helvetica"), "F2": font("Times-Roman")})
	shared := map[[2]int]pdfx.Ref{}
	for i, p := range doc.Pages {
		ref := pdfx.Ref{N: d.num[i+1]}
		v := d.objs[ref.N].(pdfx.Dict)
		for _, k := range []string{"CropBox", "Annots", "Contents", "Resources", "Rotate", "MediaBox"} {
			delete(v, k)
		}
		x0, y0 := float64(r.Intn(3)*10), float64(r.Intn(2)*7)
		v["MediaBox"] = maybe(pdfx.Arr{pdfx.Real(x0), pdfx.Real(y0), pdfx.Real(x0 + []float64{612, 595.5}[p.Size-1]), pdfx.Real(y0 + 792)})
		v["Rotate"] = maybe(90 * p.Rot)
		var content bytes.Buffer
		sep := func() {
			content.WriteString([]string{"\n", " ", "\r\n", "\n\n"}[r.Intn(4)])
			if r.Intn(8) == 0 {
				content.WriteString("% (q 1 0 0 rg\n")
			}
		}
		images := map[string]cmEl{}
		xobjects := pdfx.Dict{}
		var annots pdfx.Arr
		for _, k := range cmPerm(r, len(p.Els), r.Intn(3) > 0) {
			e := p.Els[k]
			x, y := w.place(e)
			moved := r.Intn(3) == 0 // by the transformation, or by coordinates
			var dx, dy float64
			switch e.K {
			case "text":
				size, name := 12, "F1"
				if e.St == 2 {
					size = 14
				} else if e.St == 3 {
					name = "F2"
				}
				if moved {
					dx, dy = float64(r.Intn(50)), float64(r.Intn(50))
					fmt.Fprintf(&content, "q 1 0 0 1 %s %s cm ", cmNum(dx), cmNum(dy))
				}
				fmt.Fprintf(&content, "BT /%s %d Tf ", name, size)
				if r.Intn(2) == 0 {
					fmt.Fprintf(&content, "%s %s Td ", cmNum(x-dx), cmNum(y-dy))
				} else {
					fmt.Fprintf(&content, "1 0 0 1 %s %s Tm ", cmNum(x-dx), cmNum(y-dy))
				}
				s := w.word(e)
				str := func(s string) string {
					if r.Intn(3) == 0 {
						return fmt.Sprintf("<%x>", s)
					}
					return string(pdfx.Write(pdfx.Str(s)))
				}
				if r.Intn(3) == 0 {
					n := r.Intn(len(s))
					fmt.Fprintf(&content, "[%s %d %s] TJ ET", str(s[:n]), -r.Intn(99), str(s[n:]))
				} else {
					fmt.Fprintf(&content, "%s Tj ET", str(s))
				}
				if moved {
					content.WriteString(" Q")
				}
			case "shape":
				content.WriteString("q ")
				if moved {
					dx, dy = float64(r.Intn(50)), float64(r.Intn(50))
					fmt.Fprintf(&content, "1 0 0 1 %s %s cm ", cmNum(dx), cmNum(dy))
				}
				n := float64(20*e.V + 40*((e.W-1)/2))
				color := func(op string) string {
					return fmt.Sprintf("%s 0 %s %s ", cmNum(.2*float64(e.St)), cmNum(1-.1*float64(e.St)), op)
				}
				ops := []string{color("RG"), color("rg"), fmt.Sprintf("%d w ", 2+e.St)}
				r.Shuffle(3, func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
				content.WriteString(strings.Join(ops, ""))
				X, Y := cmNum(x-dx), cmNum(y-dy)
				X2, Y2 := cmNum(x-dx+n), cmNum(y-dy+n)
				if e.W%2 == 1 {
					fmt.Fprintf(&content, "%s %s %v %v re %s", X, Y, n, n, "B")
				} else {
					fmt.Fprintf(&content, "%s %s m %s %s l S", X, Y, X2, Y2)
				}
				content.WriteString(" Q")
			case "image":
				name := ""
				for n, o := range images {
					if o.W == e.W && o.V == e.V && r.Intn(2) == 0 {
						name = n
					}
				}
				if name == "" {
					for name = fmt.Sprintf("Im%d", r.Intn(4)); images[name].W != 0; {
						name += "x"
					}
					images[name] = e
					obj, ok := shared[[2]int{e.W, e.V}]
					if !ok || r.Intn(2) == 0 {
						obj = stream(pdfx.Dict{"Type": pdfx.Name("XObject"), "Subtype": pdfx.Name("Image"), "Width": maybe(2 + e.W), "Height": w.tall, "BitsPerComponent": 8, "ColorSpace": maybe(pdfx.Name("DeviceGray"))}, w.image(e))
						shared[[2]int{e.W, e.V}] = obj
					}
					xobjects[name] = obj
				}
				if moved {
					fmt.Fprintf(&content, "q 1 0 0 1 %s %s cm 30 0 0 30 0 0 cm /%s Do Q", cmNum(x), cmNum(y), name)
				} else {
					fmt.Fprintf(&content, "q 30 0 0 30 %s %s cm /%s Do Q", cmNum(x), cmNum(y), name)
				}
			case "note":
				a := pdfx.Dict{"Type": pdfx.Name("Annot"), "Rect": maybe(pdfx.Arr{pdfx.Real(x), pdfx.Real(y), pdfx.Real(x + 18), pdfx.Real(y + 18)}),
					"C": pdfx.Arr{pdfx.Real(.2 * float64(e.St)), 0, 1}, "Contents": pdfx.Str("a note"), "T": pdfx.Str("who"), "Subj": pdfx.Str("what")}
				if w.plain && e.St == 1 { // without a colour
					delete(a, "C")
				}
				a[w.noteKey] = maybe(textStr(r, w.note(e)))
				if e.V == 1 {
					a["Subtype"] = pdfx.Name("Text")
				} else {
					a["Subtype"] = pdfx.Name("Link")
					a["A"] = maybe(pdfx.Dict{"S": pdfx.Name("URI"), "URI": pdfx.Str(fmt.Sprintf("http://example.org/%d", e.W))})
				}
				if r.Intn(2) == 0 {
					a["P"] = ref
				}
				if r.Intn(3) == 0 {
					annots = append(annots, a)
				} else {
					annots = append(annots, d.add(a))
				}
			}
			sep()
		}
		if annots != nil || r.Intn(4) == 0 {
			v["Annots"] = maybe(annots)
			if annots == nil {
				v["Annots"] = pdfx.Arr{}
			}
		}
		res := pdfx.Dict{"Font": fonts}
		if len(xobjects) > 0 {
			res["XObject"] = maybe(xobjects)
		}
		v["Resources"] = maybe(res)
		switch b := content.Bytes(); {
		case len(b) == 0 && r.Intn(2) == 0:
		case r.Intn(3) == 0:
			n := bytes.IndexByte(b, '\n') + 1
			v["Contents"] = maybe(pdfx.Arr{stream(pdfx.Dict{}, []byte("q")), stream(pdfx.Dict{}, b[:n]), stream(pdfx.Dict{}, b[n:]), stream(pdfx.Dict{}, []byte("Q"))})
		default:
			v["Contents"] = stream(pdfx.Dict{}, b)
		}
		d.set(ref.N, v)
		f.images = append(f.images, images)
	}

	// data about the document
	info := pdfx.Dict{}
	for i, x := range doc.Meta {
		if x == 0 {
			continue
		}
		k := [2]int{i + 1, x}
		switch i + 1 {
		case 3:
			info["CreationDate"] = pdfx.Str(fmt.Sprintf("D:20200%d0203040506Z", x))
			if x > 1 {
				info["ModDate"] = pdfx.Str("D:20210102030405Z")
			}
		case 4:
			d.pw = []byte([]string{"", "secret"}[r.Intn(2)])
			d.crypt = newCrypt(r, handlerCfg(r, []string{"R2", "R3", "R4rc4", "R4aes", "R5", "R6"}[r.Intn(6)]), d.pw, []byte("owner"))
		default:
			text := cmMemo(w.meta, k, func() string { return randText(r) })
			info[map[int]string{1: "Title", 2: "Producer", 5: "Author", 6: w.custom2, 7: w.custom, 8: "Keywords", 9: "Creator"}[i+1]] = maybe(textStr(r, text))
		}
	}
	d.info = nil
	if len(info) > 0 || r.Intn(2) == 0 {
		i := d.add(info)
		d.info = &i
	}
	cat := d.objs[d.root.N].(pdfx.Dict)

	// bookmarks
	if len(doc.Marks) > 0 {
		root := d.reserve(r)
		refs := make([]pdfx.Ref, len(doc.Marks))
		items := make([]pdfx.Dict, len(doc.Marks))
		for i := range refs {
			refs[i] = d.reserve(r)
		}
		var level func(lo, hi int, up pdfx.Ref, v pdfx.Dict)
		level = func(lo, hi int, up pdfx.Ref, v pdfx.Dict) {
			prev := -1
			n := 0
			for i := lo; i < hi; {
				j := i + 1
				for j < hi && doc.Marks[j].Deep > doc.Marks[i].Deep {
					j++
				}
				m := doc.Marks[i]
				it := pdfx.Dict{"Parent": up, "Title": maybe(textStr(r, w.mark(m.T)))}
				dest := pdfx.Arr{pdfx.Ref{N: d.num[1], G: d.gens[d.num[1]]}, pdfx.Name("Fit")}
				switch {
				case w.markMode == 1:
					it["A"] = pdfx.Dict{"S": pdfx.Name("URI"), "URI": pdfx.Str(fmt.Sprintf("http://example.org/%d", m.To))}
				case w.markMode == 2:
					it["Dest"] = pdfx.Arr{pdfx.Ref{N: d.num[1], G: d.gens[d.num[1]]}, pdfx.Name("FitH"), 100 * m.To}
				case m.To == 1:
					it["Dest"] = maybe(dest)
					if r.Intn(2) == 0 {
						delete(it, "Dest")
						it["A"] = maybe(pdfx.Dict{"S": pdfx.Name("GoTo"), "D": dest})
					}
				case m.To == 2:
					it["A"] = pdfx.Dict{"S": pdfx.Name("URI"), "URI": pdfx.Str("http://example.org/x")}
				case m.To == 3:
					it["Dest"] = pdfx.Str("chapter")
				}
				if prev >= 0 {
					it["Prev"] = refs[prev]
					items[prev]["Next"] = refs[i]
				} else {
					v["First"] = refs[i]
				}
				v["Last"] = refs[i]
				items[i] = it
				level(i+1, j, refs[i], it)
				prev, i = i, j
				n++
			}
			if n > 0 {
				v["Count"] = n
			}
		}
		rv := pdfx.Dict{}
		level(0, len(doc.Marks), root, rv)
		d.set(root.N, rv)
		for i := range items {
			d.set(refs[i].N, items[i])
		}
		cat["Outlines"] = root
	}

	// form values
	any := r.Intn(2) == 0
	for _, x := range doc.Fields {
		any = any || x > 0
	}
	if any {
		var list pdfx.Arr
		for _, i := range cmPerm(r, len(doc.Fields), true) {
			fd := pdfx.Dict{"FT": pdfx.Name("Tx"), "T": textStr(r, w.field(i+1))}
			if i%3 == 2 {
				fd["FT"] = pdfx.Name("Ch")
				fd["Opt"] = pdfx.Arr{pdfx.Str("a"), pdfx.Str("b")}
				fd["Ff"] = 1 << 18
			}
			if x := doc.Fields[i]; x > 0 {
				fd["V"] = maybe(textStr(r, w.value(i+1, x)))
			}
			list = append(list, d.add(fd))
		}
		cat["AcroForm"] = maybe(pdfx.Dict{"Fields": maybe(list)})
	}
	d.set(d.root.N, cat)
	f.src, f.pw = d.serialise(r), d.pw
	return f
}

func (w *cmWorld) note(e cmEl) string {
	return cmMemo(w.notes, e.W, func() string { return randText(w.r) })
}
func (w *cmWorld) mark(n int) string {
	return cmMemo(w.marks, n, func() string { return randText(w.r) })
}
func (w *cmWorld) field(n int) string {
	return cmMemo(w.names, n, func() string { return fmt.Sprintf("field %d", w.r.Intn(1000)) })
}
func (w *cmWorld) value(n, x int) string {
	return cmMemo(w.fields, [2]int{n, x}, func() string { return randText(w.r) })
}

// near tells the cell and offset of a place.
func (w *cmWorld) near(e *cmEl, x, y float64) bool {
	x, y = x-w.origin[0], y-w.origin[1]
	if w.cell[0] != 0 {
		e.At = int(math.Round(x / w.cell[0]))
	} else {
		e.At = int(math.Round(y / w.cell[1]))
	}
	e.J = int(math.Round(x - w.cell[0]*float64(e.At)))
	return math.Abs(x-w.cell[0]*float64(e.At)-float64(e.J)) < .01 && math.Abs(y-w.cell[1]*float64(e.At)+float64(e.J)) < .01
}

func (w *cmWorld) textEl(x types.TextElement) (cmEl, bool) {
	e := cmEl{K: "text"}
	ok := w.near(&e, x.X, x.Y)
	switch {
	case x.FontName == "/F1" && math.Abs(x.FontSize-12) < .01:
		e.St = 1
	case x.FontName == "/F1" && math.Abs(x.FontSize-14) < .01:
		e.St = 2
	case x.FontName == "/F2" && math.Abs(x.FontSize-12) < .01:
		e.St = 3
	default:
		ok = false
	}
	for n := range w.words {
		for i := 0; i < 8; i++ {
			c := cmEl{W: n, V: 1 + i&1, C: i >> 1 & 1, S: i >> 2}
			if cmText(w.word(c)) == x.Text {
				e.W, e.V, e.C, e.S = c.W, c.V, c.C, c.S
				return e, ok
			}
		}
	}
	return e, false
}

func (w *cmWorld) shapeEl(x types.Graphic) (cmEl, bool) {
	e := cmEl{K: "shape"}
	if x.BoundingBox == nil {
		return e, false
	}
	ok := w.near(&e, x.BoundingBox.LowerX, x.BoundingBox.LowerY)
	n := int(math.Round((x.BoundingBox.UpperX - x.BoundingBox.LowerX) / 20))
	e.V = 1 + (n-1)%2
	e.W = 1 + (n-1)/2*2
	if x.Type == types.GraphicTypeLine {
		e.W++
	}
	color := x.StrokeColor
	if color == nil {
		return e, false
	}
	e.St = int(math.Round(color.R * 5))
	return e, ok
}

func (w *cmWorld) imageAt(f *cmFile, page int, x types.ImageRef) (cmEl, bool) {
	o, ok := f.images[page][strings.TrimPrefix(x.ImageID, "/")]
	e := cmEl{K: "image", W: o.W, V: o.V}
	return e, w.near(&e, x.X, x.Y) && ok
}

func (w *cmWorld) noteEl(x types.Annotation) (cmEl, bool) {
	e := cmEl{K: "note", V: 1}
	if x.Rect == nil || x.Color == nil && !w.plain {
		return e, false
	}
	ok := w.near(&e, x.Rect.LowerX, x.Rect.LowerY)
	if x.Type == types.AnnotationTypeLink {
		e.V = 2
	}
	e.St = 1
	if x.Color != nil {
		e.St = int(math.Round(x.Color.R * 5))
	}
	for n, s := range w.notes {
		if s == map[string]string{"Contents": x.Contents, "Subj": x.Subject, "T": x.Title}[w.noteKey] {
			e.W = n
			return e, ok && (e.V == 1 || x.URI == fmt.Sprintf("http://example.org/%d", n))
		}
	}
	return e, false
}

func (o cmOpts) class(e cmEl) cmEl {
	if o.Case {
		e.C = 0
	}
	if o.Space {
		e.S = 0
	}
	if e.K == "note" || e.K == "text" && o.TTol > 0 || e.K != "text" && o.GTol > 0 {
		e.J = 0
	}
	if e.K == "text" && o.Gran != "element" {
		e.St = 0
	}
	return e
}

func (o cmOpts) lib() compare.CompareOptions {
	tol := []float64{.01, 3, 5}
	c := compare.CompareOptions{TextTolerance: tol[o.TTol], GraphicTolerance: tol[o.GTol], IgnoreCase: o.Case, IgnoreWhitespace: o.Space,
		DetectMoves: o.Moves, IgnoreMetadata: o.Meta == "none", IgnoreProducer: o.Meta == "default", IgnoreDates: o.Meta == "default"}
	switch o.Gran {
	case "word":
		c.TextGranularity = compare.GranularityWord
	case "char":
		c.TextGranularity = compare.GranularityChar
	case "element":
		if o.TTol == 2 {
			c.TextGranularity = compare.GranularityElement
		}
	}
	switch o.Sens {
	case "strict":
		c.DiffSensitivity = compare.SensitivityStrict
	case "relaxed":
		c.DiffSensitivity = compare.SensitivityRelaxed
	case "threshold":
		c.MinChangeThreshold = .1
	}
	return c
}

type cmBag map[cmEl]int

func (b cmBag) String() string {
	var l []string
	for e, n := range b {
		if n != 0 {
			l = append(l, fmt.Sprintf("%d×%+v", n, e))
		}
	}
	sort.Strings(l)
	return "{" + strings.Join(l, "; ") + "}"
}

func cmBags(rows [][]cmCount) (o []cmBag) {
	for _, row := range rows {
		b := cmBag{}
		for _, c := range row {
			b[c.El] = c.N
		}
		o = append(o, b)
	}
	return o
}

func (b cmBag) equal(c cmBag) bool {
	for e, n := range b {
		if c[e] != n {
			return false
		}
	}
	for e, n := range c {
		if b[e] != n {
			return false
		}
	}
	return true
}

// sides collects what a report says a page of the first document has more of,
// and what the second.
func (w *cmWorld) sides(o cmOpts, fa, fb *cmFile, pd compare.PageDifference) (less, more cmBag, err error) {
	less, more = cmBag{}, cmBag{}
	put := func(b cmBag, x interface{}) func(e cmEl, ok bool) {
		return func(e cmEl, ok bool) {
			if !ok {
				err = fmt.Errorf("report names what neither document has: %+v (%+v)", x, e)
			}
			b[o.class(e)]++
		}
	}
	p := pd.PageNumber - 1
	if d := pd.TextDiff; d != nil {
		for _, x := range d.Removed {
			put(less, x)(w.textEl(x))
		}
		for _, x := range d.Added {
			put(more, x)(w.textEl(x))
		}
		for _, x := range d.Modified {
			put(less, x)(w.textEl(x.Old))
			put(more, x)(w.textEl(x.New))
			if o.Sens == "relaxed" || o.Sens == "threshold" {
				e1, _ := w.textEl(x.Old)
				e2, _ := w.textEl(x.New)
				e1, e2 = o.class(e1), o.class(e2)
				if e1.W == e2.W && e1.C == e2.C && e1.S == e2.S {
					err = fmt.Errorf("with %s sensitivity a small change is reported: %q, %q", o.Sens, x.Old.Text, x.New.Text)
				}
			}
		}
	}
	if d := pd.GraphicDiff; d != nil {
		for _, x := range d.Removed {
			put(less, x)(w.shapeEl(x))
		}
		for _, x := range d.Added {
			put(more, x)(w.shapeEl(x))
		}
	}
	if d := pd.ImageDiff; d != nil {
		for _, x := range d.Removed {
			put(less, x)(w.imageAt(fa, p, x))
		}
		for _, x := range d.Added {
			put(more, x)(w.imageAt(fb, p, x))
		}
		for _, x := range append(append([]compare.ImageModification{}, d.Modified...), d.Moved...) {
			put(less, x)(w.imageAt(fa, p, x.Old))
			put(more, x)(w.imageAt(fb, p, x.New))
		}
		for _, x := range d.Moved {
			if e1, _ := w.imageAt(fa, p, x.Old); true {
				if e2, _ := w.imageAt(fb, p, x.New); e1.W != e2.W || e1.V != e2.V {
					err = fmt.Errorf("different images are called moved: %+v %+v", e1, e2)
				}
			}
		}
	}
	if d := pd.AnnotationDiff; d != nil {
		for _, x := range d.Removed {
			put(less, x)(w.noteEl(x))
		}
		for _, x := range d.Added {
			put(more, x)(w.noteEl(x))
		}
	}
	return less, more, err
}

// missing gives what want has more than got; ok if got has nothing more.
func (b cmBag) missing(got cmBag) (o map[[4]int]int, n int, ok bool) {
	o, ok = map[[4]int]int{}, true
	for e, k := range b {
		if d := k - got[e]; d > 0 {
			if e.K != "text" {
				return o, n, false
			}
			o[[4]int{e.W, e.C, e.S}] += d
			n += d
		}
	}
	for e, k := range got {
		if k > b[e] {
			ok = false
		}
	}
	return o, n, ok
}

func (w *cmWorld) check(c *cmTold, a, b cmDoc, fa, fb *cmFile, less, more []cmBag, step int, way string) {
	t := w.t
	fail := func(key, f string, x ...interface{}) {
		t.FailBlob(key, append(append(append([]byte{}, fa.src...), "\n--- second ---\n"...), fb.src...), "comparison %d %s (%+v): %s", step, way, c.O, fmt.Sprintf(f, x...))
	}
	opts := c.O.lib()
	if w.t.R.Intn(3) == 0 { // how far a move may go only tells which changes are called moves
		opts.MoveTolerance = []float64{.5, 6, 40, 1000}[w.t.R.Intn(4)]
	}
	var res *compare.ComparisonResult
	ca, cb := append([]byte{}, fa.src...), append([]byte{}, fb.src...)
	run := func() *compare.ComparisonResult {
		var err error
		var x *compare.ComparisonResult
		if c.O.Meta == "default" && reflect.DeepEqual(opts, compare.DefaultCompareOptions()) {
			x, err = compare.ComparePDFs(ca, cb, fa.pw, fb.pw, false)
		} else {
			x, err = compare.ComparePDFsWithOptions(ca, cb, fa.pw, fb.pw, opts)
		}
		if err != nil {
			fail("error", "%v", err)
			return nil
		}
		return x
	}
	if res = run(); res == nil {
		return
	}
	if !bytes.Equal(ca, fa.src) || !bytes.Equal(cb, fb.src) {
		fail("input", "the documents have been changed")
	}
	t.Count("comparisons", 1)
	js, err := compare.GenerateJSONReport(res)
	if err != nil || !json.Valid([]byte(js)) {
		fail("json", "JSON report: %v", err)
	}
	text := compare.GenerateReport(res)
	if w.r.Intn(3) == 0 {
		if res2 := run(); res2 != nil {
			js2, _ := compare.GenerateJSONReport(res2)
			if js2 != js || compare.GenerateReport(res2) != text {
				fail("again", "the same comparison gives another report")
			}
		}
	}

	if c.Same && !res.Identical {
		fail("same", "documents saying the same are reported different: %s", js)
		return
	}
	lax := c.O.Sens == "relaxed" || c.O.Sens == "threshold"
	if !c.Same && !lax && res.Identical {
		fail("different", "different documents are reported identical: missing %v, extra %v, meta %v, marks %v, fields %v, same pages %v", less, more, c.Meta, c.Marks, c.Fields, c.SamePages)
		return
	}

	// pages
	got := map[int]compare.PageDifference{}
	for _, pd := range res.PageDiffs {
		if _, ok := got[pd.PageNumber]; ok {
			fail("page", "page %d is reported twice", pd.PageNumber)
		}
		got[pd.PageNumber] = pd
	}
	for p := range less {
		pd := got[p+1]
		delete(got, p+1)
		pd.PageNumber = p + 1
		l, m, err := w.sides(c.O, fa, fb, pd)
		if err != nil {
			fail("element", "page %d: %v", p+1, err)
		}
		if !lax {
			if !l.equal(less[p]) {
				fail("less", "page %d: reported as gone %v, expected %v", p+1, l, less[p])
			}
			if !m.equal(more[p]) {
				fail("more", "page %d: reported as new %v, expected %v", p+1, m, more[p])
			}
		} else {
			x, n, ok1 := less[p].missing(l)
			y, k, ok2 := more[p].missing(m)
			if !ok1 || !ok2 || n != k || !reflect.DeepEqual(x, y) {
				fail("relaxed", "page %d: reported as gone %v, new %v, expected %v, %v without small changes", p+1, l, m, less[p], more[p])
			}
			t.Count("small changes left out", n)
		}
		said := map[string]bool{}
		for _, df := range pd.Differences {
			said[string(df.Type)+" "+fmt.Sprint(df.OldValue)+" "+fmt.Sprint(df.NewValue)] = true
			if df.Location != fmt.Sprintf("Page %d", p+1) {
				fail("location", "page %d: a difference at %q", p+1, df.Location)
			}
		}
		size := func(d cmDoc) string { return []string{"612.00x792.00", "595.50x792.00"}[d.Pages[p].Size-1] }
		if s := "page_content " + size(a) + " " + size(b); said[s] != (size(a) != size(b)) {
			fail("size", "page %d: sizes %s, %s: %v", p+1, size(a), size(b), said)
		}
		ra, rb := 90*a.Pages[p].Rot, 90*b.Pages[p].Rot
		if s := fmt.Sprintf("page_content %d %d", ra, rb); said[s] != (ra != rb) {
			fail("rotation", "page %d: %d, %d: %v", p+1, ra, rb, said)
		}
		has := map[string]bool{}
		for _, df := range pd.Differences {
			has[string(df.Type)] = true
		}
		if has["text"] != (pd.TextDiff != nil) || has["graphic"] != (pd.GraphicDiff != nil) || has["image"] != (pd.ImageDiff != nil) || has["annotation"] != (pd.AnnotationDiff != nil) ||
			has["page_content"] != (ra != rb || size(a) != size(b)) {
			fail("kinds", "page %d: differences %v do not fit the details", p+1, has)
		}
		if len(pd.Differences) > 0 && !strings.Contains(text, fmt.Sprintf("Page %d:", p+1)) {
			fail("report", "the report does not mention page %d", p+1)
		}
	}
	for p := len(less); p < len(a.Pages) || p < len(b.Pages); p++ {
		pd, ok := got[p+1]
		delete(got, p+1)
		want := "removed"
		if len(b.Pages) > len(a.Pages) {
			want = "added"
		}
		if !ok || len(pd.Differences) != 1 || pd.Differences[0].Category != want {
			fail("pages", "page %d is %s: %+v", p+1, want, pd)
		}
	}
	for p := range got {
		fail("pages", "page %d is reported, which neither document has", p)
	}
	counts := func(what string, d *compare.FieldDiff, want bool) {
		if (d != nil) != want || d != nil && (d.OldValue != len(a.Pages) || d.NewValue != len(b.Pages)) {
			fail("count", "%s: %+v for %d and %d pages", what, d, len(a.Pages), len(b.Pages))
		}
	}
	differ := len(a.Pages) != len(b.Pages)
	if (res.StructureDiff != nil) != differ {
		fail("structure", "structure: %+v", res.StructureDiff)
	} else if differ {
		counts("structure", res.StructureDiff.PageCountDiff, true)
	}

	// data about the document
	md := res.MetadataDiff
	if md == nil {
		md = &compare.MetadataDifference{}
	} else if reflect.DeepEqual(*md, compare.MetadataDifference{}) {
		fail("meta", "empty metadata difference")
	}
	counts("metadata", md.PageCount, differ && c.O.Meta != "none")
	if md.PDFVersion != nil {
		fail("version", "version: %+v", md.PDFVersion)
	}
	meta := map[int]bool{}
	for _, i := range c.Meta {
		meta[i] = true
	}
	for i := range a.Meta {
		d := map[int]*compare.FieldDiff{1: md.Title, 2: md.Producer, 4: md.Encrypted, 5: md.Author, 6: md.Subject, 7: md.Custom[w.custom], 8: md.Keywords, 9: md.Creator}[i+1]
		if c, ok := md.Custom[w.custom2]; ok && i+1 == 6 {
			d = c
		}
		label := map[int]string{1: "Title", 2: "Producer", 3: "Date", 4: "Encrypted", 5: "Author", 6: w.custom2, 7: w.custom, 8: "Keywords", 9: "Creator"}[i+1]
		if meta[i+1] && !strings.Contains(text, label) {
			fail("report", "the report does not mention %s", label)
		}
		switch i + 1 {
		case 3:
			if (md.CreationDate != nil || md.ModDate != nil) != meta[3] {
				fail("dates", "%+v %+v", md.CreationDate, md.ModDate)
			}
			continue
		case 4:
			if (d != nil) != meta[4] || d != nil && (d.OldValue != (a.Meta[3] > 0) || d.NewValue != (b.Meta[3] > 0)) {
				fail("encrypted", "%+v, for %d and %d", d, a.Meta[3], b.Meta[3])
			}
			continue
		}
		if (d != nil) != meta[i+1] {
			fail("meta", "%s: %+v", label, d)
		} else if d != nil {
			is := func(v interface{}, x int) bool {
				if x == 0 {
					return v == nil || v == ""
				}
				return v == w.meta[[2]int{i + 1, x}]
			}
			if !is(d.OldValue, a.Meta[i]) || !is(d.NewValue, b.Meta[i]) {
				fail("meta", "%s: reported %q, %q; is %q, %q", label, d.OldValue, d.NewValue, w.meta[[2]int{i + 1, a.Meta[i]}], w.meta[[2]int{i + 1, b.Meta[i]}])
			}
		}
	}
	for k := range md.Custom {
		if !(k == w.custom && meta[7] || k == w.custom2 && meta[6] && k != "Subject") {
			fail("custom", "entry %q is reported", k)
		}
	}

	// bookmarks
	var bm, fm int
	for _, df := range res.Differences {
		switch df.Type {
		case compare.DifferenceTypeBookmark:
			bm++
		case compare.DifferenceTypeForm:
			fm++
		default:
			fail("kind", "unexpected difference %+v", df)
		}
	}
	if (bm > 0) != c.Marks || bm > 1 {
		fail("bookmarks", "reported %d times; differ: %v", bm, c.Marks)
	}
	if c.Marks && !strings.Contains(text, "Bookmark") {
		fail("report", "the report does not mention bookmarks")
	}

	// forms
	type change struct{ kind, name, old, new string }
	want, have := map[change]int{}, map[change]int{}
	for _, i := range c.Fields {
		x := change{"modified", w.field(i), "", ""}
		if v := a.Fields[i-1]; v > 0 {
			x.old = w.value(i, v)
		} else {
			x.kind = "added"
		}
		if v := b.Fields[i-1]; v > 0 {
			x.new = w.value(i, v)
		} else {
			x.kind = "removed"
		}
		want[x]++
		if !strings.Contains(text, x.name) {
			fail("report", "the report does not mention field %q", x.name)
		}
	}
	if d := res.FormDiff; d != nil {
		str := func(v interface{}) string {
			if v == nil {
				return ""
			}
			return fmt.Sprint(v)
		}
		add := func(kind string, l []compare.FormFieldChange) {
			for _, x := range l {
				have[change{kind, x.FieldName, str(x.OldValue), str(x.NewValue)}]++
			}
		}
		add("added", d.Added)
		add("removed", d.Removed)
		add("modified", d.Modified)
		if d.FormType != nil {
			fail("formtype", "%+v", d.FormType)
		}
	}
	if !reflect.DeepEqual(want, have) {
		fail("form", "reported %q, expected %q", have, want)
	}
	if (fm > 0) != (len(want) > 0) {
		fail("form", "summary of form differences: %d for %q", fm, want)
	}

	// summary
	s := res.Summary
	if s.MetadataChanged != (res.MetadataDiff != nil) || s.StructureChanged != (res.StructureDiff != nil) || s.PagesChanged != (len(res.PageDiffs) > 0) ||
		s.ContentChanged != (len(res.PageDiffs) > 0 || res.FormDiff != nil) || res.Identical != (s.TotalDifferences == 0) {
		fail("summary", "%+v does not fit %s", s, js)
	}
	if strings.Contains(text, "IDENTICAL") != res.Identical || strings.Contains(text, "DIFFERENT") == res.Identical {
		fail("report", "identical is %v, but the report says %.200s", res.Identical, text)
	}
	if !res.Identical {
		t.Count("different", 1)
	}
}

func compareReplay(t *T) {
	var c struct {
		Log []cmTold `json:"log"`
	}
	t.JSON(&c)
	r := t.R
	w := &cmWorld{t: t, r: r, words: map[int]string{}, notes: map[int]string{}, meta: map[[2]int]string{}, marks: map[int]string{}, fields: map[[2]int]string{}, names: map[int]string{}, pixels: map[[2]int][]byte{},
		noteKey: []string{"Contents", "Subj", "T"}[r.Intn(3)], markMode: r.Intn(4), plain: r.Intn(2) == 0, custom2: []string{"Subject", "Second"}[r.Intn(2)], tall: []int{3, 3, 1 + r.Intn(3000)}[r.Intn(3)],
		custom: []string{"Case", "X-Number", "Dept A", "Größe"}[r.Intn(3)], origin: [2]float64{float64(r.Intn(80)) / 4, float64(r.Intn(80)) / 4}, cell: cmCells[r.Intn(len(cmCells))]}
	t.Steps = len(c.Log)
	for i := range c.Log {
		x := &c.Log[i]
		fa, fb := w.build(x.A), w.build(x.B)
		less, more := cmBags(x.Less), cmBags(x.More)
		t.Do("compare", fa.src, func() {
			w.check(x, x.A, x.B, fa, fb, less, more, i+1, "forwards")
			if t.Failed() {
				return
			}
			w.check(x, x.B, x.A, fb, fa, more, less, i+1, "backwards")
			if t.Failed() {
				return
			}
			if i == len(c.Log)-1 && (i > 0 || r.Intn(8) == 0) {
				// the same document in another layout
				y := &cmTold{O: x.O, A: x.B, B: x.B, Same: true, SamePages: true}
				none := make([]cmBag, len(x.B.Pages))
				for k := range none {
					none[k] = cmBag{}
				}
				other := w.build(x.B)
				w.check(y, x.B, x.B, fb, other, none, none, i+1, "with itself in another layout")
				w.check(y, x.B, x.B, fb, fb, none, none, i+1, "with itself")
			}
		})
		if t.Failed() {
			return
		}
	}
}
