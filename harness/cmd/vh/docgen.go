package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"verif/harness/pdfx"
)

// Documents with arbitrary page trees, in arbitrary layouts.

type specTree struct {
	Kids [][2]interface{} `json:"kids"` // [node, [kids]]
	Rot  [][2]int         `json:"rot"`  // [node, own rotation]
}

func (s *specTree) kids() map[int][]int {
	m := map[int][]int{}
	for _, k := range s.Kids {
		n := int(k[0].(float64))
		for _, x := range k[1].([]interface{}) {
			m[n] = append(m[n], int(x.(float64)))
		}
	}
	return m
}

const treeRoot = 100

// numberer hands out scattered object numbers.
type numberer struct {
	r    *rand.Rand
	used map[int]bool
	max  int
	past int // beyond max, numbers are given out in order
}

func newNumberer(r *rand.Rand, max int) *numberer {
	return &numberer{r: r, used: map[int]bool{}, max: max}
}

func (n *numberer) get() int {
	for i := 0; ; i++ {
		k := 1 + n.r.Intn(n.max)
		if i > 50 {
			if n.past < n.max+50 {
				n.past = n.max + 50
			}
			n.past++
			k = n.past
		}
		if !n.used[k] {
			n.used[k] = true
			return k
		}
	}
}

type genDoc struct {
	b       *pdfx.Builder
	num     map[int]int // spec node -> object number
	root    pdfx.Ref
	info    *pdfx.Ref
	objs    map[int]pdfx.Val
	gens    map[int]int
	version string
	fixed   string // version to have, if not any
	nums    *numberer
	order   []int // object numbers in definition order
	crypt   *pdfx.Crypt
	pw      []byte // opens the document
	mangle  func(st *pdfx.Stream)
	loose   bool // some references lead nowhere
}

func (d *genDoc) add(v pdfx.Val) pdfx.Ref {
	n := d.nums.get()
	return d.set(n, v)
}

func (d *genDoc) set(n int, v pdfx.Val) pdfx.Ref {
	if _, ok := d.objs[n]; !ok {
		d.order = append(d.order, n)
	}
	d.objs[n] = v
	return pdfx.Ref{N: n, G: d.gens[n]}
}

// reserve makes a number (with its generation) before the object is known.
func (d *genDoc) reserve(r *rand.Rand) pdfx.Ref {
	n := d.nums.get()
	return pdfx.Ref{N: n, G: d.gens[n]}
}

type treeOpts struct {
	gens   bool // some objects have generation > 0
	decoys bool
	text   func(id int) string // page content
	tag    string
}

func pageText(tag string, id int) string {
	return fmt.Sprintf("BT /F1 12 Tf 72 %d Td (%s page %d) Tj ET", 700-id, tag, id)
}

func box(r *rand.Rand) pdfx.Arr {
	return pdfx.Arr{0, 0, 100 + r.Intn(500), pdfx.Real(100.5 + float64(r.Intn(700)))}
}

// decoyDict holds keys and strings that look like page tree entries.
func decoys(r *rand.Rand, d pdfx.Dict) {
	pick := []func(){
		func() { d["RotateX"] = 45 },
		func() { d["Alt"] = pdfx.Str("/Rotate 90 /Kids [1 0 R] /Count 7 >> endobj") },
		func() {
			d["LastKey"] = pdfx.Dict{"Rotate": 45, "Count": 9, "Kids": pdfx.Arr{}, "Type": pdfx.Name("Pages"), "Parent": pdfx.Null{}, "MediaBox": pdfx.Arr{1, 1, 2, 2}}
		},
		func() {
			d["AAA"] = pdfx.Dict{"Type": pdfx.Name("Page"), "Rotate": 135, "Count": 3, "Kids": pdfx.Arr{pdfx.Arr{}}, "Contents": 4}
		},
		func() { d["Name"] = pdfx.Name("Rotate") },
		func() { d["KidsList"] = pdfx.Arr{1, 2} },
		func() { d["ParentTree"] = 5 },
		func() { d["A B"] = pdfx.Name("x(y") },
	}
	for _, f := range pick {
		if r.Intn(4) == 0 {
			f()
		}
	}
}

// build makes the document's objects.
func genTreeDoc(r *rand.Rand, tr *specTree, o treeOpts) *genDoc {
	d := &genDoc{num: map[int]int{}, objs: map[int]pdfx.Val{}, gens: map[int]int{}, nums: newNumberer(r, 150)}
	if o.gens && r.Intn(3) == 0 {
		for i := 0; i < 200; i++ {
			if r.Intn(5) == 0 {
				d.gens[i] = 1 + r.Intn(3)
			}
		}
	}
	kids := tr.kids()
	rot := map[int]int{}
	for _, x := range tr.Rot {
		rot[x[0]] = x[1]
	}
	ref := map[int]pdfx.Ref{}
	var nodes []int
	var walk func(n int)
	walk = func(n int) {
		ref[n] = d.reserve(r)
		d.num[n] = ref[n].N
		nodes = append(nodes, n)
		for _, k := range kids[n] {
			walk(k)
		}
	}
	walk(treeRoot)
	font := d.add(pdfx.Dict{"Type": pdfx.Name("Font"), "Subtype": pdfx.Name("Type1"), "BaseFont": pdfx.Name("Helvetica")})
	shared := d.add(pdfx.Dict{"Font": pdfx.Dict{"F1": font}, "ProcSet": pdfx.Arr{pdfx.Name("PDF"), pdfx.Name("Text")}})
	form := d.reserve(r)
	d.set(form.N, &pdfx.Stream{D: pdfx.Dict{"Type": pdfx.Name("XObject"), "Subtype": pdfx.Name("Form"), "BBox": pdfx.Arr{0, 0, 10, 10}, "Resources": shared, "Self": form}, Raw: []byte("0 0 10 10 re f % 3 0 R endobj?")})
	cycleA, cycleB := d.reserve(r), d.reserve(r)
	d.set(cycleA.N, pdfx.Dict{"Next": cycleB, "S": pdfx.Str(fmt.Sprintf("%d 0 R (%s)", font.N, o.tag))})
	d.set(cycleB.N, pdfx.Arr{cycleA, font, pdfx.Null{}, pdfx.Str("\xfe\xff\x00x")})
	var leaves []int
	for _, n := range nodes {
		if n < treeRoot {
			leaves = append(leaves, n)
		}
	}
	resources := func() pdfx.Val {
		switch r.Intn(3) {
		case 0:
			return shared
		case 1:
			return pdfx.Dict{"Font": pdfx.Dict{"F1": font}, "XObject": pdfx.Dict{"Fm": form}}
		}
		return d.add(pdfx.Dict{"Font": d.add(pdfx.Dict{"F1": font})})
	}
	var make func(n int, parent int)
	make = func(n, parent int) {
		v := pdfx.Dict{}
		if o.decoys {
			decoys(r, v)
		}
		if parent != 0 {
			v["Parent"] = ref[parent]
		}
		if x, ok := rot[n]; ok {
			v["Rotate"] = x
			if r.Intn(6) == 0 {
				v["Rotate"] = d.add(x)
			}
		}
		if n == treeRoot || r.Intn(3) == 0 {
			v["MediaBox"] = box(r)
			if r.Intn(5) == 0 {
				v["MediaBox"] = d.add(v["MediaBox"])
			}
		}
		if n == treeRoot || r.Intn(3) == 0 {
			v["Resources"] = resources()
		}
		if r.Intn(5) == 0 {
			v["CropBox"] = box(r)
		}
		if n < treeRoot {
			v["Type"] = pdfx.Name("Page")
			txt := pageText(o.tag, n)
			if o.text != nil {
				txt = o.text(n)
			}
			stream := func(s string) pdfx.Val {
				st := &pdfx.Stream{D: pdfx.Dict{}, Raw: []byte(s)}
				if r.Intn(2) == 0 {
					st.Raw = pdfx.Deflate(st.Raw)
					st.D["Filter"] = pdfx.Name("FlateDecode")
				}
				return d.add(st)
			}
			switch r.Intn(4) {
			case 0:
				v["Contents"] = pdfx.Arr{stream("q"), stream(txt), stream("Q")}
			case 1:
				v["Contents"] = pdfx.Arr{stream(txt)}
			case 2:
				v["Contents"] = d.add(pdfx.Arr{stream(txt), stream("% " + strings.ReplaceAll(traps[r.Intn(len(traps))], "endstream", "obj"))})
			default:
				v["Contents"] = stream(txt)
			}
			if r.Intn(2) == 0 {
				other := leaves[r.Intn(len(leaves))]
				annot := pdfx.Dict{"Type": pdfx.Name("Annot"), "Subtype": pdfx.Name("Link"), "Rect": pdfx.Arr{1, 2, 3, 4}, "Dest": pdfx.Arr{ref[other], pdfx.Name("Fit")}, "P": ref[n], "X": cycleA}
				if r.Intn(2) == 0 {
					v["Annots"] = pdfx.Arr{d.add(annot)}
				} else {
					v["Annots"] = pdfx.Arr{annot, d.add(pdfx.Dict{"Type": pdfx.Name("Annot"), "Subtype": pdfx.Name("Text"), "Rect": pdfx.Arr{0, 0, 1, 1}, "Contents": pdfx.Str("a) \\( 1 0 R")})}
				}
			}
			d.set(ref[n].N, v)
			return
		}
		v["Type"] = pdfx.Name("Pages")
		a := pdfx.Arr{}
		for _, k := range kids[n] {
			a = append(a, ref[k])
		}
		cnt := 0
		var cl func(m int)
		cl = func(m int) {
			if m < treeRoot {
				cnt++
			}
			for _, k := range kids[m] {
				cl(k)
			}
		}
		cl(n)
		v["Kids"], v["Count"] = a, cnt
		if r.Intn(6) == 0 {
			v["Kids"] = d.add(a)
		}
		if r.Intn(8) == 0 {
			v["Count"] = d.add(cnt)
		}
		d.set(ref[n].N, v)
		for _, k := range kids[n] {
			make(k, n)
		}
	}
	make(treeRoot, 0)
	cat := pdfx.Dict{"Type": pdfx.Name("Catalog"), "Pages": ref[treeRoot]}
	if r.Intn(2) == 0 {
		cat["Lang"] = pdfx.Str("de (CH)")
		cat["PageMode"] = pdfx.Name("UseNone")
		cat["PagesX"] = pdfx.Ref{N: font.N}
		cat["Names"] = pdfx.Dict{"Dests": d.add(pdfx.Dict{"Names": pdfx.Arr{pdfx.Str("d"), pdfx.Arr{ref[leaves[0]], pdfx.Name("Fit")}}})}
	}
	d.root = d.add(cat)
	if r.Intn(3) > 0 {
		i := d.add(pdfx.Dict{"Title": pdfx.Str("Doc " + o.tag), "Producer": pdfx.Str("x (y) \\")})
		d.info = &i
	}
	return d
}

// serialise writes the document in one or two revisions.
func (d *genDoc) serialise(r *rand.Rand) []byte {
	d.version = []string{"1.4", "1.5", "1.7", "2.0"}[r.Intn(4)]
	if d.fixed != "" {
		d.version = d.fixed
	}
	first := 1000
	for _, n := range d.order {
		if n+500 > first {
			first = n + 500
		}
	}
	d.b = pdfx.NewBuilder(d.version, first)
	d.b.Mangle = d.mangle
	enc := &cryptDoc{r: r, c: d.crypt}
	var encObj *pdfx.Obj
	if d.crypt != nil {
		d.b.IDVal = pdfx.Arr{pdfx.Str(d.crypt.ID), pdfx.Str("other")}
		d.b.Encrypt = d.crypt.Dict()
		if d.mangle != nil {
			d.mangle(&pdfx.Stream{D: d.b.Encrypt.(pdfx.Dict)})
		}
		if r.Intn(3) > 0 {
			encObj = &pdfx.Obj{N: d.nums.get(), V: d.b.Encrypt}
			d.b.Encrypt = pdfx.Ref{N: encObj.N}
		}
	}
	write := func(kind string, objs []pdfx.Obj, l pdfx.Layout) {
		for i := range objs {
			if v := objs[i].V; d.crypt != nil {
				if objs[i].Packed {
					v = nil
				}
				objs[i].Enc = enc.encFn(v)
			}
		}
		if encObj != nil {
			objs = append(objs, *encObj)
			encObj = nil
		}
		d.b.Append(kind, objs, nil, d.root, d.info, l)
	}
	ns := append([]int(nil), d.order...)
	sort.Ints(ns)
	r.Shuffle(len(ns), func(i, j int) { ns[i], ns[j] = ns[j], ns[i] })
	revs := 1 + r.Intn(2)
	emit := func(kind string, old bool, sel func(n int) bool) {
		l := pdfx.RandLayout(r)
		var objs []pdfx.Obj
		for _, n := range ns {
			if !sel(n) {
				continue
			}
			v := d.objs[n]
			_, isS := v.(*pdfx.Stream)
			g := d.gens[n]
			pk := kind == "xstm" && !isS && g == 0 && r.Intn(2) == 0
			if old {
				v = pdfx.Dict{"Old": n, "Type": pdfx.Name("Stale")}
			} else if isS {
				s := v.(*pdfx.Stream)
				v = &pdfx.Stream{D: s.D, Raw: append([]byte(nil), s.Raw...)}
			}
			objs = append(objs, pdfx.Obj{N: n, G: g, V: v, Packed: pk})
		}
		write(kind, objs, l)
	}
	kinds := []string{"table", "xstm"}
	if revs == 2 {
		later := map[int]bool{}
		for _, n := range ns {
			later[n] = r.Intn(4) == 0
		}
		// the first revision holds stale versions of what the second redefines
		l1 := func(n int) bool { return !later[n] }
		kind := kinds[r.Intn(2)]
		l := pdfx.RandLayout(r)
		var objs []pdfx.Obj
		for _, n := range ns {
			g := d.gens[n]
			v := d.objs[n]
			_, isS := v.(*pdfx.Stream)
			if !l1(n) {
				v, isS = pdfx.Dict{"Old": n, "Type": pdfx.Name("Stale")}, false
			} else if isS {
				s := v.(*pdfx.Stream)
				v = &pdfx.Stream{D: s.D, Raw: append([]byte(nil), s.Raw...)}
			}
			objs = append(objs, pdfx.Obj{N: n, G: g, V: v, Packed: kind == "xstm" && !isS && g == 0 && r.Intn(2) == 0})
		}
		write(kind, objs, l)
		emit(kinds[r.Intn(2)], false, func(n int) bool { return later[n] })
	} else {
		emit(kinds[r.Intn(2)], false, func(int) bool { return true })
	}
	out := append([]byte(nil), d.b.Buf.Bytes()...)
	if d.mangle != nil {
		return out // not meant to be valid
	}
	f, err := pdfx.ReadFile(out)
	if err == nil && d.crypt != nil {
		_, err = f.Unlock(d.pw)
	}
	if err == nil && !d.loose {
		err = f.CheckAll()
	}
	if err == nil && !d.loose {
		_, err = f.Pages()
	}
	if err != nil {
		panic(fmt.Sprintf("harness: generated document: %v", err))
	}
	return out
}

// norm renders a value with all generations set to 0 and stream data decoded
// where it can be, so that re-encoding does not matter.
func norm(v pdfx.Val) string { return pdfx.Canon(normVal(v)) }

func normVal(v pdfx.Val) pdfx.Val {
	switch x := v.(type) {
	case pdfx.Ref:
		return pdfx.Ref{N: x.N}
	case pdfx.Arr:
		o := pdfx.Arr{}
		for _, e := range x {
			o = append(o, normVal(e))
		}
		return o
	case pdfx.Dict:
		o := pdfx.Dict{}
		for k, e := range x {
			o[k] = normVal(e)
		}
		return o
	case *pdfx.Stream:
		o := normVal(x.D).(pdfx.Dict)
		delete(o, "Length")
		raw := x.Raw
		if b, err := x.Decode(); err == nil {
			raw = b
			delete(o, "Filter")
			delete(o, "DecodeParms")
		}
		return &pdfx.Stream{D: o, Raw: raw}
	}
	return v
}

// content returns the decoded, concatenated content streams of a page.
func pageContent(f *pdfx.File, d pdfx.Dict) (string, error) {
	v, err := f.Deref(d["Contents"])
	if err != nil {
		return "", err
	}
	var b bytes.Buffer
	one := func(v pdfx.Val) error {
		v, err := f.Deref(v)
		if err != nil {
			return err
		}
		s, ok := v.(*pdfx.Stream)
		if !ok {
			return fmt.Errorf("content is %T", v)
		}
		x, err := s.Decode()
		if err != nil {
			return err
		}
		b.Write(x)
		b.WriteByte('\n')
		return nil
	}
	if a, ok := v.(pdfx.Arr); ok {
		for _, e := range a {
			if err := one(e); err != nil {
				return "", err
			}
		}
		return b.String(), nil
	}
	if _, ok := v.(*pdfx.Stream); !ok {
		return "", nil
	}
	err = one(v)
	return b.String(), err
}

func contains(s, sub string) bool { return strings.Contains(s, sub) }
