package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"sort"

	"github.com/benedoc-inc/pdfer/core/parse"
	"verif/harness/pdfx"
)

// P01 / P03: histories of Revisions.tla, serialised by an independent builder
// in many layouts, read back by the code under test after every revision.

type revTrace struct {
	Sections []struct {
		Kind string   `json:"kind"`
		Ent  []string `json:"ent"`
		Gen  []int    `json:"gen"`
		Root int      `json:"root"`
		Info bool     `json:"info"`
	} `json:"sections"`
	Hist [][]int `json:"hist"`
}

var numberings = [][]int{
	{5, 15, 25, 115, 51, 151},
	{1, 2, 3, 4, 5, 6},
	{12, 2, 112, 22, 122, 212},
	{7, 8, 10, 17, 107, 77},
	{300, 30, 3, 130, 33, 303},
	{255, 256, 257, 65535, 65536, 65537},
	{99999, 4, 100000, 131072, 9, 70001},
}

// probes are the object numbers asked for after revision k: all up to a few
// more than there are, or those around the ones in use when numbers are high.
func (o *builtRev) probes(k int) []int {
	set := map[int]bool{}
	if o.size[k] < 1000 {
		for m := 0; m < o.size[k]+3; m++ {
			set[m] = true
		}
	} else {
		for _, d := range []int{-1, 0, 1, 2, -65536} {
			for m := range o.b.All {
				if m+d >= 0 {
					set[m+d] = true
				}
			}
		}
	}
	var l []int
	for m := range set {
		l = append(l, m)
	}
	sort.Ints(l)
	return l
}

var traps = []string{"endobj", "endstream", "stream", "5 0 obj", ">>", "<<", "(", "trailer", "xref", "/Prev 9", "\\", "obj", "12 0 R", "]", "%x", "%%EOF", "startxref\n9\n%%EOF\n", "startxref"}

// body picks a concrete object for version (n, rev): every version differs.
func body(r *rand.Rand, n, rev int, packed bool) pdfx.Val {
	id := n*100 + rev
	trap := func() string { return traps[r.Intn(len(traps))] }
	k := r.Intn(11) // 9, 10: a stream
	if packed && k >= 9 {
		k = r.Intn(9)
	}
	switch k {
	case 0:
		return id
	case 1:
		return pdfx.Arr{id, pdfx.Name("A"), pdfx.Ref{N: 1, G: 0}, pdfx.Arr{}, pdfx.Str("a)" + trap())}
	case 2:
		return pdfx.Str(fmt.Sprintf("v%d %s (%s) é", id, trap(), trap()))
	case 3:
		return pdfx.Name(fmt.Sprintf("N%d", id))
	case 4:
		return pdfx.Real(float64(id) + 0.25)
	case 5:
		return pdfx.Dict{"V": id, "D": pdfx.Dict{"E": pdfx.Dict{}, "S": pdfx.Str(trap()), "Z": pdfx.Str("")}, "K": pdfx.Arr{pdfx.Null{}, true, -3}}
	case 6:
		return pdfx.Dict{"V": id}
	case 7:
		return pdfx.Arr{pdfx.Dict{"V": id, "W": pdfx.Ref{N: n, G: 0}}, pdfx.Str("endobj")}
	case 8:
		return pdfx.Dict{"Type": pdfx.Name("T"), "Stream": pdfx.Str("stream\n" + trap() + "\nendstream"), "V": id, "Title": pdfx.Str("x (y) z")}
	default:
		var b bytes.Buffer
		fmt.Fprintf(&b, "id %d\n", id)
		for i := r.Intn(6); i > 0; i-- {
			b.WriteString([]string{"\n", "\r\n", " ", "endobj\n", "\nendstream\n", "5 0 obj\n", "\x00\xff", "stream\r\n", ">>", "%%EOF\n", "startxref\n0\n%%EOF\n", "xref\n0 1\n"}[r.Intn(12)])
		}
		if r.Intn(2) == 0 {
			for i := 0; i < 20; i++ {
				b.WriteByte(byte(r.Intn(256)))
			}
		}
		raw := b.Bytes()
		d := pdfx.Dict{"V": id}
		if r.Intn(3) == 0 {
			raw = pdfx.Deflate(raw)
			d["Filter"] = pdfx.Name("FlateDecode")
			if r.Intn(2) == 0 {
				d["DecodeParms"] = pdfx.Dict{"Predictor": 1}
			}
		}
		if r.Intn(8) == 0 {
			raw = nil
		} else if r.Intn(60) == 0 { // what follows lies beyond 64 KB
			raw = make([]byte, 65000+r.Intn(70000))
			r.Read(raw)
			delete(d, "Filter")
			delete(d, "DecodeParms")
		}
		return &pdfx.Stream{D: d, Raw: raw}
	}
}

type builtRev struct {
	b     *pdfx.Builder
	cuts  []int            // file length after each revision
	live  []map[int]string // canonical bodies in force after each revision
	kinds []map[int]byte   // entry kind in force
	gens  []map[int]int
	nums  []int
	root  []pdfx.Ref
	info  []*pdfx.Ref
	freed []map[int]bool
	size  []int
}

func buildRevs(tr *revTrace, r *rand.Rand) *builtRev {
	n := len(tr.Hist[0])
	nums := append([]int(nil), numberings[r.Intn(len(numberings))][:n]...)
	base := []int{400, 400, 400, 70200, 65530}[r.Intn(5)]
	b := pdfx.NewBuilder([]string{"1.5", "1.7", "1.4", "2.0"}[r.Intn(4)], base+10)
	cat := []pdfx.Ref{{N: base}, {N: base + 1}}
	pages, inf := base+2, base+3
	o := &builtRev{b: b, nums: nums}
	freed := map[int]bool{}
	for k, s := range tr.Sections {
		l := pdfx.RandLayout(r)
		var objs []pdfx.Obj
		frees := map[int]int{}
		if k == 0 {
			pk := s.Kind != "table" && r.Intn(2) == 0
			for i, c := range cat {
				objs = append(objs, pdfx.Obj{N: c.N, V: pdfx.Dict{"Type": pdfx.Name("Catalog"), "Pages": pdfx.Ref{N: pages}, "Which": i}, Packed: pk})
			}
			objs = append(objs, pdfx.Obj{N: pages, V: pdfx.Dict{"Type": pdfx.Name("Pages"), "Kids": pdfx.Arr{}, "Count": 0}, Packed: pk})
			objs = append(objs, pdfx.Obj{N: inf, V: pdfx.Dict{"Title": pdfx.Str("t")}})
		}
		order := r.Perm(n)
		for _, i := range order {
			switch s.Ent[i] {
			case "n", "z":
				v := body(r, nums[i], k+1, s.Ent[i] == "z")
				objs = append(objs, pdfx.Obj{N: nums[i], G: s.Gen[i], V: v, Packed: s.Ent[i] == "z"})
				delete(freed, nums[i])
			case "f":
				frees[nums[i]] = s.Gen[i] + 1
				freed[nums[i]] = true
			}
		}
		r.Shuffle(len(objs), func(i, j int) { objs[i], objs[j] = objs[j], objs[i] })
		var ip *pdfx.Ref
		if s.Info {
			ip = &pdfx.Ref{N: inf}
		}
		b.Append(s.Kind, objs, frees, cat[s.Root-1], ip, l)
		live, kinds, gens := map[int]string{}, map[int]byte{}, map[int]int{}
		for m, e := range b.All {
			if e.Kind == 'f' {
				continue
			}
			live[m] = pdfx.Canon(b.Bodies[m])
			kinds[m] = e.Kind
			if e.Kind == 'n' {
				gens[m] = e.Gen
			}
		}
		// the specification's view and the builder's must agree
		for i, m := range nums {
			if (tr.Hist[k][i] != 0) != (live[m] != "") {
				panic(fmt.Sprintf("harness: builder disagrees with the specification on object %d after revision %d", m, k+1))
			}
		}
		fr := map[int]bool{}
		for m := range freed {
			fr[m] = true
		}
		o.cuts = append(o.cuts, b.Buf.Len())
		o.live = append(o.live, live)
		o.kinds = append(o.kinds, kinds)
		o.gens = append(o.gens, gens)
		o.root = append(o.root, cat[s.Root-1])
		o.info = append(o.info, ip)
		o.freed = append(o.freed, fr)
		sz := 0
		for m := range b.All {
			if m >= sz {
				sz = m + 1
			}
		}
		o.size = append(o.size, sz)
	}
	return o
}

func refStr(r *pdfx.Ref) string {
	if r == nil {
		return ""
	}
	return fmt.Sprintf("%d %d R", r.N, r.G)
}

func sortedInts(x []int) []int { y := append([]int(nil), x...); sort.Ints(y); return y }

func keysOf(m map[int]string) []int {
	var r []int
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}

func init() {
	props["P01"] = func(t *T) {
		var tr revTrace
		t.JSON(&tr)
		o := buildRevs(&tr, t.R)
		full := o.b.Buf.Bytes()
		// the independent strict reader must agree with the specification first
		var files []*pdfx.File
		for k := range o.cuts {
			f, err := pdfx.ReadFile(full[:o.cuts[k]])
			files = append(files, f)
			if err != nil {
				panic(fmt.Sprintf("harness: strict reader rejects built file: %v", err))
			}
			for m, want := range o.live[k] {
				v, err := f.Get(m)
				if err != nil || pdfx.Canon(v) != want {
					panic(fmt.Sprintf("harness: strict reader on object %d: %v: have %.300s want %.300s", m, err, pdfx.Canon(v), want))
				}
			}
		}
		for k := range o.cuts {
			data := append([]byte(nil), full[:o.cuts[k]]...)
			t.Steps++
			for _, mode := range []string{"standard", "byteperfect"} {
				t.Do("OpenWithOptions/"+mode, data, func() { checkView(t, o, k, data, mode) })
			}
			t.Do("parse.GetObject", data, func() {
				for m, want := range o.live[k] {
					got, err := parse.GetObject(data, m, nil, false)
					if err != nil {
						t.FailBlob("parse.GetObject", data, "revision %d: parse.GetObject(%d): %v", k+1, m, err)
						return
					}
					cmpObj(t, "parse.GetObject", data, k, m, got, want)
				}
				for m := range o.live[k] {
					x := files[k].X[m]
					at, err := parse.FindObjectByNumber(data, m, nil, false)
					if (err == nil) != (x.Kind == 'n') || err == nil && at != x.Off {
						t.FailBlob("parse.FindObjectByNumber", data, "revision %d: object %d (%c at %d): found at %d, %v", k+1, m, x.Kind, x.Off, at, err)
					}
					loc, err := parse.FindObjectLocation(data, m, false)
					if err != nil || loc.IsDirect != (x.Kind == 'n') || loc.IsDirect && loc.ByteOffset != int64(x.Off) || !loc.IsDirect && (loc.StreamObjNum != x.Off || loc.IndexInStream != x.Gen) {
						t.FailBlob("parse.FindObjectLocation", data, "revision %d: object %d (%c at %d): location %+v, %v", k+1, m, x.Kind, x.Off, loc, err)
					}
				}
				if tr, err := parse.ParsePDFTrailer(data); err == nil && tr.StartXRef != int64(files[k].StartXRef) {
					t.FailBlob("parse.ParsePDFTrailer", data, "revision %d: startxref %d, should be %d", k+1, tr.StartXRef, files[k].StartXRef)
				}
				for m := range o.freed[k] {
					if at, err := parse.FindObjectByNumber(data, m, nil, false); err == nil {
						t.FailBlob("parse.FindObjectByNumber/freed", data, "revision %d: freed object %d is found at %d", k+1, m, at)
					}
					if got, err := parse.GetObject(data, m, nil, false); err == nil {
						t.FailBlob("parse.GetObject/freed", data, "revision %d: freed object %d is still returned: %.60q", k+1, m, got)
					}
				}
			})
			if t.Failed() {
				return
			}
		}
	}
	props["P03"] = func(t *T) {
		var tr revTrace
		t.JSON(&tr)
		o := buildRevs(&tr, t.R)
		full := o.b.Buf.Bytes()
		for k := range o.cuts {
			data := append([]byte(nil), full[:o.cuts[k]]...)
			t.Steps++
			t.Do("byte-perfect", data, func() { checkBytePerfect(t, o, k, data) })
			if t.Failed() {
				return
			}
		}
	}
}

func cmpObj(t *T, api string, data []byte, k, m int, got []byte, want string) {
	v, err := pdfx.ParseIndirect(got)
	if err != nil {
		if st, ok := lenRef(got); ok {
			v, err = st, nil
		}
	}
	if err != nil {
		t.FailBlob(api+"/body", data, "revision %d: object %d comes back unreadable: %v\n%.300q", k+1, m, err, got)
		return
	}
	if c := pdfx.Canon(v); c != want {
		t.FailBlob(api+"/body", data, "revision %d: object %d is %.300s, should be %.300s", k+1, m, c, want)
	}
}

// lenRef parses a returned stream object whose /Length is a reference: the
// data then extends to the last endstream.
func lenRef(got []byte) (pdfx.Val, bool) {
	e := bytes.LastIndex(got, []byte("endstream"))
	s := bytes.Index(got, []byte("stream"))
	if e < 0 || s < 0 || s >= e {
		return nil, false
	}
	lex := &pdfx.Lex{}
	for cut := e; cut >= e-2 && cut >= 0; cut-- {
		c := cut
		lex.Resolve = func(pdfx.Ref) (int, bool) {
			p := lex.P
			return c - p, c >= p
		}
		if cut < e {
			if ch := got[cut]; ch != '\n' && ch != '\r' {
				break
			}
		}
		v, err := pdfx.ParseIndirectWith(got, lex)
		if err == nil {
			if cut == e {
				if e > 0 && (got[e-1] == '\n' || got[e-1] == '\r') {
					continue
				}
			} else if cut == e-1 && e >= 2 && got[e-2] == '\r' {
				continue
			}
			return v, true
		}
	}
	return nil, false
}

func checkView(t *T, o *builtRev, k int, data []byte, mode string) {
	p, err := parse.OpenWithOptions(data, parse.ParseOptions{BytePerfect: mode == "byteperfect"})
	if err != nil {
		t.FailBlob(mode+"/open", data, "revision %d: %v", k+1, err)
		return
	}
	want := keysOf(o.live[k])
	if got := sortedInts(p.Objects()); fmt.Sprint(got) != fmt.Sprint(want) {
		t.FailBlob(mode+"/Objects", data, "revision %d: Objects() = %v, should be %v", k+1, got, want)
		return
	}
	if p.ObjectCount() != len(want) {
		t.FailBlob(mode+"/ObjectCount", data, "revision %d: ObjectCount() = %d, should be %d", k+1, p.ObjectCount(), len(want))
	}
	for _, m := range o.probes(k) {
		w, ok := o.live[k][m]
		if p.HasObject(m) != ok {
			t.FailBlob(mode+"/HasObject", data, "revision %d: HasObject(%d) = %v", k+1, m, p.HasObject(m))
		}
		got, err := p.GetObject(m)
		if !ok {
			if err == nil {
				t.FailBlob(mode+"/GetObject", data, "revision %d: GetObject(%d) returns %.60q for an object not in the document", k+1, m, got)
			}
			continue
		}
		if err != nil {
			t.FailBlob(mode+"/GetObject", data, "revision %d: GetObject(%d): %v", k+1, m, err)
			return
		}
		cmpObj(t, mode+"/GetObject", data, k, m, got, w)
		if t.Failed() {
			return
		}
		t.Count("objects_compared", 1)
	}
	tr := p.Trailer()
	if tr == nil {
		t.FailBlob(mode+"/Trailer", data, "revision %d: no trailer", k+1)
		return
	}
	if tr.RootRef != refStr(&o.root[k]) || tr.InfoRef != refStr(o.info[k]) || tr.Size != o.size[k] || tr.EncryptRef != "" {
		t.FailBlob(mode+"/Trailer", data, "revision %d: trailer %+v, should have root %s info %q size %d", k+1, *tr, refStr(&o.root[k]), refStr(o.info[k]), o.size[k])
	}
	if p.RevisionCount() != k+1 {
		t.FailBlob(mode+"/RevisionCount", data, "RevisionCount() = %d after %d revisions", p.RevisionCount(), k+1)
	}
}

func checkBytePerfect(t *T, o *builtRev, k int, data []byte) {
	in := append([]byte(nil), data...)
	p, err := parse.OpenWithOptions(data, parse.ParseOptions{BytePerfect: true})
	if err != nil {
		t.FailBlob("open", in, "revision %d: %v", k+1, err)
		return
	}
	if !bytes.Equal(p.Bytes(), in) || !bytes.Equal(p.Raw(), in) {
		t.FailBlob("Bytes", in, "revision %d: Bytes() differs from the input", k+1)
	}
	doc := p.Document()
	if doc == nil || doc.RevisionCount() != k+1 || p.RevisionCount() != k+1 || parse.CountRevisions(in) != k+1 {
		t.FailBlob("RevisionCount", in, "revision %d: wrong revision count", k+1)
		return
	}
	if !bytes.Equal(doc.Bytes(), in) {
		t.FailBlob("Bytes", in, "revision %d: Document().Bytes() differs from the input", k+1)
	}
	for i := 0; i <= k; i++ {
		s := o.b.Sections[i]
		got, err := parse.ExtractRevision(in, i+1)
		if err != nil || !bytes.Equal(got, in[:s.End]) {
			t.FailBlob("ExtractRevision", in, "ExtractRevision(%d) of %d: err %v, %d bytes, should be the first %d", i+1, k+1, err, len(got), s.End)
		}
		rev := doc.Revisions[i]
		if rev.Number != i+1 || rev.StartXRef != int64(s.XRefOff) || rev.EndOffset != int64(s.End) {
			t.FailBlob("Revision", in, "revision %d: number %d startxref %d end %d, should be startxref %d end %d", i+1, rev.Number, rev.StartXRef, rev.EndOffset, s.XRefOff, s.End)
		}
		for m, rg := range s.Raw {
			ob := doc.GetObjectInRevision(m, i+1)
			if ob == nil {
				t.FailBlob("RawObject", in, "revision %d of %d: object %d missing from the revision", i+1, k+1, m)
				return
			}
			if !bytes.Equal(ob.RawBytes, in[rg[0]:rg[1]]) || ob.Offset != int64(rg[0]) || ob.EndOffset != int64(rg[1]) {
				t.FailBlob("RawObject", in, "revision %d of %d: object %d raw bytes are [%d,%d), should be [%d,%d)", i+1, k+1, m, ob.Offset, ob.EndOffset, rg[0], rg[1])
				return
			}
			t.Count("raw_objects_compared", 1)
			checkRawParts(t, in, ob)
		}
		for m := range rev.Objects {
			if _, ok := s.Raw[m]; !ok {
				t.FailBlob("RawObject", in, "revision %d of %d: object %d listed but not written in it", i+1, k+1, m)
			}
		}
		checkRevisionParts(t, in, o, i, rev)
		rb := rev.RevisionBytes(doc)
		first := s.XRefOff
		for _, rg := range s.Raw {
			if rg[0] < first {
				first = rg[0]
			}
		}
		if !bytes.HasSuffix(in[:s.End], rb) || len(rb) < s.End-first || len(rb) > s.End-s.Start {
			t.FailBlob("RevisionBytes", in, "revision %d of %d: RevisionBytes is not the tail of the revision", i+1, k+1)
		}
	}
	head := in[5:bytes.IndexAny(in, "\r\n")]
	if h := doc.Header; h == nil || h.Version != string(head) || fmt.Sprintf("%d.%d", h.MajorVersion, h.MinorVersion) != string(head) || !bytes.HasPrefix(in, h.RawBytes) {
		t.FailBlob("Header", in, "after revision %d: the header is told as %+v, should be version %s", k+1, h, head)
	}
	newest := map[int][]byte{}
	for _, s := range o.b.Sections[:k+1] {
		for m, rg := range s.Raw {
			newest[m] = in[rg[0]:rg[1]]
		}
	}
	all := doc.AllObjects()
	if doc.ObjectCount() != len(newest) || len(all) != len(newest) || doc.LatestRevision() != doc.Revisions[k] {
		t.FailBlob("ObjectCount", in, "after revision %d: %d objects counted, %d listed, should be %d", k+1, doc.ObjectCount(), len(all), len(newest))
	}
	for m, want := range newest {
		if all[m] == nil || !bytes.Equal(all[m].Bytes(), want) || doc.GetObject(m) != all[m] {
			t.FailBlob("AllObjects", in, "after revision %d: object %d is not listed as last written", k+1, m)
		}
	}
	for _, m := range o.probes(k) {
		ob, err := p.GetRawObject(m)
		direct := o.kinds[k][m] == 'n'
		if direct != (err == nil) {
			t.FailBlob("GetRawObject", in, "after revision %d: GetRawObject(%d) err=%v, directly stored: %v", k+1, m, err, direct)
			return
		}
		if !direct {
			continue
		}
		off := 0
		var rg [2]int
		for i := k; i >= 0; i-- {
			if x, ok := o.b.Sections[i].Raw[m]; ok {
				rg = x
				off = 1
				break
			}
		}
		if off == 0 {
			panic("harness: raw range missing")
		}
		if !bytes.Equal(ob.Bytes(), in[rg[0]:rg[1]]) || ob.Number != m || ob.Generation != o.gens[k][m] {
			t.FailBlob("GetRawObject", in, "after revision %d: GetRawObject(%d) is %d %d obj at %d, should be gen %d at %d", k+1, m, ob.Number, ob.Generation, ob.Offset, o.gens[k][m], rg[0])
		}
	}
	if doc.LatestRevision() != doc.Revisions[k] {
		t.FailBlob("LatestRevision", in, "LatestRevision is not revision %d", k+1)
	}
}

func checkRawParts(t *T, in []byte, ob *parse.PDFRawObject) {
	v, err := pdfx.ParseIndirect(ob.RawBytes)
	if err != nil {
		if st, ok := lenRef(ob.RawBytes); ok {
			v = st
		} else {
			panic(fmt.Sprintf("harness: raw object: %v", err))
		}
	}
	st, isS := v.(*pdfx.Stream)
	if ob.IsStream != isS {
		t.FailBlob("RawObject/IsStream", in, "object %d: IsStream=%v", ob.Number, ob.IsStream)
		return
	}
	c := ob.Content()
	cv, err := pdfx.Parse(c)
	if err != nil {
		if s2, ok := lenRef(c); ok {
			cv, err = s2, nil
		}
	}
	if err != nil || pdfx.Canon(cv) != pdfx.Canon(v) {
		t.FailBlob("RawObject/Content", in, "object %d: Content() is %.100q (%v)", ob.Number, c, err)
	}
	if isS {
		dv, err := pdfx.Parse(ob.DictRaw)
		if err != nil || pdfx.Canon(dv) != pdfx.Canon(st.D) {
			t.FailBlob("RawObject/DictRaw", in, "object %d: DictRaw %.100q", ob.Number, ob.DictRaw)
		}
		if _, ind := st.D["Length"].(pdfx.Ref); !ind && !bytes.Equal(ob.StreamRaw, st.Raw) {
			t.FailBlob("RawObject/StreamRaw", in, "object %d: StreamRaw %d bytes, should be %d", ob.Number, len(ob.StreamRaw), len(st.Raw))
		}
		part := func(what string, from, to int, want []byte) {
			if from < 0 || to < from || to > len(ob.RawBytes) || !bytes.Equal(ob.RawBytes[from:to], want) {
				t.FailBlob("RawObject/"+what, in, "object %d: the %s is told to be [%d,%d) of the %d raw bytes, which are not the %d bytes given", ob.Number, what, from, to, len(ob.RawBytes), len(want))
			}
		}
		part("dictionary", ob.DictStart, ob.DictEnd, ob.DictRaw)
		part("data", ob.StreamStart, ob.StreamEnd, ob.StreamRaw)
	}
}

// checkRevisionParts checks the cross-reference section and trailer told of a
// revision of a byte-perfect document.
func checkRevisionParts(t *T, in []byte, o *builtRev, i int, rev *parse.PDFRevision) {
	s := o.b.Sections[i]
	fail := func(what, f string, args ...interface{}) {
		t.FailBlob("Revision/"+what, in, "revision %d: %s", i+1, fmt.Sprintf(f, args...))
	}
	if e := int(rev.EOFOffset); e < s.Start || e+5 > s.End || string(in[e:e+5]) != "%%EOF" || len(bytes.Trim(in[e+5:s.End], "\r\n")) > 0 {
		fail("EOFOffset", "EOFOffset %d does not point at the marker ending bytes [%d,%d)", e, s.Start, s.End)
	}
	x := rev.XRef
	if x == nil || x.Offset != int64(s.XRefOff) || (x.Type == parse.XRefTypeStream) != (s.Kind == "xstm") {
		fail("XRef", "XRef %+v, should be a %s at %d", x, s.Kind, s.XRefOff)
		return
	}
	raw := x.Bytes()
	switch {
	case s.Kind == "xstm":
		v, err := pdfx.ParseIndirect(raw)
		if st, ok := v.(*pdfx.Stream); err != nil || !ok || st.D["Type"] != pdfx.Name("XRef") || !bytes.HasPrefix(in[s.XRefOff:], raw) {
			fail("XRef", "the bytes of the cross-reference stream are %.100q", raw)
		}
	default:
		end := s.XRefOff + bytes.Index(in[s.XRefOff:], []byte("trailer"))
		if !bytes.Equal(bytes.TrimSpace(raw), bytes.TrimSpace(in[s.XRefOff:end])) {
			fail("XRef", "the bytes of the cross-reference table are %.200q, should be %.200q", raw, in[s.XRefOff:end])
		}
	}
	told := map[int][]parse.XRefEntry{}
	for _, e := range x.Entries {
		told[e.ObjectNum] = append(told[e.ObjectNum], e)
		if _, ok := s.X[e.ObjectNum]; !ok {
			fail("Entries", "an entry for object %d, which the section does not hold", e.ObjectNum)
			return
		}
	}
	for n, want := range s.X {
		used := false
		for _, e := range told[n] {
			if !e.InUse {
				continue
			}
			used = true
			ok := false
			switch want.Kind {
			case 'n':
				ok = !e.InObjectStream && e.Offset == int64(want.Off) && e.Generation == want.Gen
			case 'z':
				ok = e.InObjectStream && e.StreamObjNum == want.Off && e.IndexInStream == want.Gen
			}
			if !ok {
				fail("Entries", "the entry of object %d is %+v, should be %c %d %d", n, e, want.Kind, want.Off, want.Gen)
				return
			}
		}
		if len(told[n]) == 0 || used != (want.Kind != 'f') {
			fail("Entries", "the entries of object %d are %+v, should be %c %d %d", n, told[n], want.Kind, want.Off, want.Gen)
			return
		}
	}
	tr := rev.Trailer
	var d pdfx.Dict
	if tr != nil {
		v, err := pdfx.Parse(bytes.TrimPrefix(tr.RawBytes, []byte("trailer")))
		d, _ = v.(pdfx.Dict)
		if err != nil {
			d = nil
		}
	}
	if d == nil {
		fail("Trailer", "no trailer: %+v", tr)
		return
	}
	ref := func(k string) string {
		if r, ok := d[k].(pdfx.Ref); ok {
			return fmt.Sprintf("%d %d R", r.N, r.G)
		}
		return ""
	}
	size, _ := d["Size"].(int)
	prev, _ := d["Prev"].(int)
	wantPrev := 0
	if i > 0 {
		wantPrev = o.b.Sections[i-1].XRefOff
	}
	at := 0
	if s.Kind != "xstm" {
		at = s.XRefOff + bytes.Index(in[s.XRefOff:], []byte("trailer"))
		if !bytes.HasPrefix(in[at:], tr.Bytes()) {
			fail("Trailer", "the bytes of the trailer are %.200q", tr.Bytes())
		}
	}
	if size == 0 || tr.Size != size || prev != wantPrev || tr.Prev != int64(prev) || tr.Offset != int64(at) ||
		ref("Root") == "" || tr.Root != ref("Root") || tr.Info != ref("Info") || tr.Encrypt != ref("Encrypt") {
		fail("Trailer", "told %+v, should be Size %d Prev %d Root %s Info %q Encrypt %q at %d", *tr, size, wantPrev, ref("Root"), ref("Info"), ref("Encrypt"), at)
	}
	id, _ := d["ID"].(pdfx.Arr)
	same := len(id) == len(tr.ID)
	for k := 0; same && k < len(id); k++ {
		same = pdfx.Canon(id[k]) == pdfx.Canon(pdfx.Str(tr.ID[k]))
	}
	if !same {
		fail("ID", "the identifier is told as %q, should be %s", tr.ID, pdfx.Canon(d["ID"]))
	}
}
