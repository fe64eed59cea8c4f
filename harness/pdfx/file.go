package pdfx

import (
	"bytes"
	"fmt"
	"regexp"
	"sort"
	"strconv"
)

// Entry is one cross-reference entry.
type Entry struct {
	Kind byte // 'n' direct, 'z' in object stream, 'f' free
	Off  int  // offset, or object stream number
	Gen  int  // generation, or index in stream
}

// File is a PDF read strictly: newest section first along /Prev, every direct
// entry must point exactly at its "N G obj" header, tables must have 20-byte
// entries, nothing is searched for or repaired.
type File struct {
	B       []byte
	X       map[int]Entry
	Trailer Dict
	Size    int
	// Decrypt, when set, is applied to strings and stream data of object (n,g).
	Decrypt   func(n, g int, data []byte, s *Stream) ([]byte, error)
	EncRef    int
	nSect     int
	StartXRef int // offset of the newest section
}

var reStart = regexp.MustCompile(`startxref[\r\n ]+(\d+)[\r\n ]+%%EOF[\r\n ]*$`)

func guard(err *error) {
	if r := recover(); r != nil {
		if e, ok := r.(perr); ok {
			*err = e
			return
		}
		panic(r)
	}
}

func ReadFile(b []byte) (f *File, err error) {
	defer guard(&err)
	if !bytes.HasPrefix(b, []byte("%PDF-1.")) && !bytes.HasPrefix(b, []byte("%PDF-2.")) {
		return nil, fmt.Errorf("no PDF header")
	}
	tail := b
	if len(tail) > 200 {
		tail = tail[len(tail)-200:]
	}
	m := reStart.FindSubmatch(tail)
	if m == nil {
		return nil, fmt.Errorf("file does not end in startxref/%%%%EOF")
	}
	pos, _ := strconv.Atoi(string(m[1]))
	f = &File{B: b, X: map[int]Entry{}, StartXRef: pos}
	seen := map[int]bool{}
	for first := true; ; first = false {
		if pos <= 0 || pos >= len(b) || seen[pos] {
			return nil, fmt.Errorf("bad xref offset %d", pos)
		}
		seen[pos] = true
		f.nSect++
		ent, tr, err := readSection(b, pos)
		if err != nil {
			return nil, fmt.Errorf("xref section at %d: %v", pos, err)
		}
		for n, e := range ent {
			if _, ok := f.X[n]; !ok {
				f.X[n] = e
			}
		}
		if first {
			f.Trailer = tr
			f.Size, _ = tr["Size"].(int)
		}
		p, ok := tr["Prev"].(int)
		if !ok {
			break
		}
		pos = p
	}
	if r, ok := f.Trailer["Encrypt"].(Ref); ok {
		f.EncRef = r.N
	}
	for n := range f.X {
		if n >= f.Size && f.X[n].Kind != 'f' {
			return nil, fmt.Errorf("object %d not below /Size %d", n, f.Size)
		}
	}
	return f, nil
}

func readSection(b []byte, pos int) (map[int]Entry, Dict, error) {
	ent := map[int]Entry{}
	l := &Lex{B: b, P: pos}
	if bytes.HasPrefix(b[pos:], []byte("xref")) {
		l.P += 4
		if l.P < len(b) && !IsWS(b[l.P]) {
			return nil, nil, fmt.Errorf("garbage after xref")
		}
		for {
			l.Skip()
			if bytes.HasPrefix(b[l.P:], []byte("trailer")) {
				l.P += 7
				break
			}
			first, e1 := strconv.Atoi(l.word())
			for l.P < len(b) && b[l.P] == ' ' {
				l.P++
			}
			cnt, e2 := strconv.Atoi(l.word())
			if e1 != nil || e2 != nil {
				return nil, nil, fmt.Errorf("bad subsection header")
			}
			for l.P < len(b) && b[l.P] == ' ' {
				l.P++
			}
			if l.P < len(b) && b[l.P] == '\r' {
				l.P++
			}
			if l.P < len(b) && b[l.P] == '\n' {
				l.P++
			}
			for i := 0; i < cnt; i++ {
				if l.P+20 > len(b) {
					return nil, nil, fmt.Errorf("short table")
				}
				e := b[l.P : l.P+20]
				l.P += 20
				off, e1 := strconv.Atoi(string(e[:10]))
				gen, e2 := strconv.Atoi(string(e[11:16]))
				eol := string(e[18:20])
				if e1 != nil || e2 != nil || e[10] != ' ' || e[16] != ' ' || (e[17] != 'n' && e[17] != 'f') ||
					(eol != " \n" && eol != " \r" && eol != "\r\n") {
					return nil, nil, fmt.Errorf("malformed 20-byte entry %q", e)
				}
				if _, dup := ent[first+i]; dup {
					return nil, nil, fmt.Errorf("object %d listed twice in one section", first+i)
				}
				ent[first+i] = Entry{Kind: e[17], Off: off, Gen: gen}
			}
		}
		d, ok := l.Value().(Dict)
		if !ok {
			return nil, nil, fmt.Errorf("trailer is no dictionary")
		}
		if off, ok := d["XRefStm"].(int); ok {
			if off <= 0 || off >= len(b) || bytes.HasPrefix(b[off:], []byte("xref")) {
				return nil, nil, fmt.Errorf("bad /XRefStm %d", off)
			}
			hid, _, err := readSection(b, off)
			if err != nil {
				return nil, nil, fmt.Errorf("/XRefStm: %v", err)
			}
			for n, e := range hid {
				if t, ok := ent[n]; !ok || t.Kind == 'f' {
					ent[n] = e
				}
			}
		}
		return ent, d, nil
	}
	if _, ok := l.header(); !ok {
		return nil, nil, fmt.Errorf("neither table nor stream")
	}
	st, ok := l.Object().(*Stream)
	if !ok || st.D["Type"] != Name("XRef") {
		return nil, nil, fmt.Errorf("not an XRef stream")
	}
	if !l.try("endobj") {
		return nil, nil, fmt.Errorf("no endobj")
	}
	data, err := st.Decode()
	if err != nil {
		return nil, nil, err
	}
	wa, _ := st.D["W"].(Arr)
	if len(wa) != 3 {
		return nil, nil, fmt.Errorf("/W")
	}
	var w [3]int
	for i := range w {
		w[i], ok = wa[i].(int)
		if !ok || w[i] < 0 {
			return nil, nil, fmt.Errorf("/W")
		}
	}
	size, _ := st.D["Size"].(int)
	idx := Arr{0, size}
	if x, ok := st.D["Index"].(Arr); ok {
		idx = x
	}
	total := 0
	p := 0
	for k := 0; k+1 < len(idx); k += 2 {
		first, ok1 := idx[k].(int)
		cnt, ok2 := idx[k+1].(int)
		if !ok1 || !ok2 {
			return nil, nil, fmt.Errorf("/Index")
		}
		for i := 0; i < cnt; i++ {
			var v [3]int
			if w[0] == 0 {
				v[0] = 1
			}
			for j := 0; j < 3; j++ {
				for q := 0; q < w[j]; q++ {
					if p >= len(data) {
						return nil, nil, fmt.Errorf("xref stream data too short")
					}
					v[j] = v[j]<<8 | int(data[p])
					p++
				}
			}
			total++
			if _, dup := ent[first+i]; dup {
				return nil, nil, fmt.Errorf("object %d listed twice in one section", first+i)
			}
			switch v[0] {
			case 0:
				ent[first+i] = Entry{'f', v[1], v[2]}
			case 1:
				ent[first+i] = Entry{'n', v[1], v[2]}
			case 2:
				ent[first+i] = Entry{'z', v[1], v[2]}
			default:
				return nil, nil, fmt.Errorf("entry type %d", v[0])
			}
		}
	}
	if p != len(data) {
		return nil, nil, fmt.Errorf("xref stream data has %d extra bytes", len(data)-p)
	}
	return ent, st.D, nil
}

// Nums lists the objects in use.
func (f *File) Nums() []int {
	var r []int
	for n, e := range f.X {
		if e.Kind != 'f' && n != 0 {
			r = append(r, n)
		}
	}
	sort.Ints(r)
	return r
}

func (f *File) resolveLen(r Ref) (int, bool) {
	v, err := f.Get(r.N)
	if err != nil {
		return 0, false
	}
	n, ok := v.(int)
	return n, ok
}

// Get reads an object (Null if absent or free).
func (f *File) Get(n int) (v Val, err error) {
	defer guard(&err)
	e, ok := f.X[n]
	if !ok || e.Kind == 'f' {
		return Null{}, nil
	}
	if e.Kind == 'n' {
		if e.Off <= 0 || e.Off >= len(f.B) {
			return nil, fmt.Errorf("object %d: offset %d outside file", n, e.Off)
		}
		l := &Lex{B: f.B, P: e.Off, Resolve: f.resolveLen}
		if f.B[e.Off] < '0' || f.B[e.Off] > '9' {
			return nil, fmt.Errorf("object %d: offset %d is not at an object header", n, e.Off)
		}
		r, ok := l.header()
		if !ok || r.N != n || r.G != e.Gen {
			return nil, fmt.Errorf("object %d gen %d: offset %d has %.20q", n, e.Gen, e.Off, f.B[e.Off:])
		}
		v := l.Object()
		if !l.try("endobj") {
			return nil, fmt.Errorf("object %d: no endobj after body (at %d: %.30q)", n, l.P, f.B[l.P:])
		}
		if f.Decrypt != nil && n != f.EncRef {
			if s, ok := v.(*Stream); !ok || s.D["Type"] != Name("XRef") {
				return f.dec(v, n, r.G)
			}
		}
		return v, nil
	}
	sv, err := f.Get(e.Off)
	if err != nil {
		return nil, err
	}
	if ce, ok := f.X[e.Off]; !ok || ce.Kind != 'n' {
		return nil, fmt.Errorf("object %d in object stream %d, which is not a direct object", n, e.Off)
	}
	st, ok := sv.(*Stream)
	if !ok || st.D["Type"] != Name("ObjStm") {
		return nil, fmt.Errorf("object %d: container %d is no object stream", n, e.Off)
	}
	nums, offs, first, data, err := objStm(st)
	if err != nil {
		return nil, fmt.Errorf("object stream %d: %v", e.Off, err)
	}
	i := e.Gen
	if i < 0 || i >= len(nums) || nums[i] != n {
		return nil, fmt.Errorf("object %d: index %d of object stream %d is not it (%v)", n, i, e.Off, nums)
	}
	p := first + offs[i]
	if p < first || p >= len(data) {
		return nil, fmt.Errorf("object %d: offset %d outside object stream", n, p)
	}
	l := &Lex{B: data, P: p}
	v = l.Value()
	end := len(data)
	if i+1 < len(nums) {
		end = first + offs[i+1]
	}
	if l.P > end {
		return nil, fmt.Errorf("object %d overlaps its successor in object stream %d", n, e.Off)
	}
	return v, nil
}

func objStm(st *Stream) (nums, offs []int, first int, data []byte, err error) {
	data, err = st.Decode()
	if err != nil {
		return
	}
	cnt, ok1 := st.D["N"].(int)
	first, ok2 := st.D["First"].(int)
	if !ok1 || !ok2 || first < 0 || first > len(data) {
		err = fmt.Errorf("/N or /First")
		return
	}
	fs := bytes.Fields(data[:first])
	if len(fs) < 2*cnt {
		err = fmt.Errorf("header has %d numbers for /N %d", len(fs), cnt)
		return
	}
	for i := 0; i < cnt; i++ {
		a, e1 := strconv.Atoi(string(fs[2*i]))
		b, e2 := strconv.Atoi(string(fs[2*i+1]))
		if e1 != nil || e2 != nil {
			err = fmt.Errorf("header")
			return
		}
		if i > 0 && b < offs[i-1] {
			err = fmt.Errorf("offsets not increasing: %v %d", offs, b)
			return
		}
		nums, offs = append(nums, a), append(offs, b)
	}
	return
}

func (f *File) dec(v Val, n, g int) (Val, error) {
	switch x := v.(type) {
	case Str:
		b, err := f.Decrypt(n, g, x, nil)
		return Str(b), err
	case Arr:
		for i := range x {
			e, err := f.dec(x[i], n, g)
			if err != nil {
				return nil, err
			}
			x[i] = e
		}
		return x, nil
	case Dict:
		for k := range x {
			e, err := f.dec(x[k], n, g)
			if err != nil {
				return nil, err
			}
			x[k] = e
		}
		return x, nil
	case *Stream:
		if _, err := f.dec(x.D, n, g); err != nil {
			return nil, err
		}
		b, err := f.Decrypt(n, g, x.Raw, x)
		if err != nil {
			return nil, fmt.Errorf("stream of object %d: %v", n, err)
		}
		x.Raw = b
		return x, nil
	}
	return v, nil
}

// Deref follows references.
func (f *File) Deref(v Val) (Val, error) {
	for i := 0; i < 20; i++ {
		r, ok := v.(Ref)
		if !ok {
			return v, nil
		}
		var err error
		if v, err = f.Get(r.N); err != nil {
			return nil, err
		}
	}
	return nil, fmt.Errorf("reference loop")
}

func (f *File) DictOf(v Val) (Dict, error) {
	v, err := f.Deref(v)
	if err != nil {
		return nil, err
	}
	switch x := v.(type) {
	case Dict:
		return x, nil
	case *Stream:
		return x.D, nil
	}
	return nil, fmt.Errorf("expected a dictionary, have %T", v)
}

// Page is one leaf of the page tree.
type Page struct {
	Num int
	D   Dict
	// Inh holds the inheritable attributes in force.
	Inh Dict
}

// Pages walks the page tree strictly: /Kids must be references, /Parent must
// point back, /Count must equal the number of leaves, no node may occur twice.
func (f *File) Pages() ([]Page, error) {
	root, err := f.DictOf(f.Trailer["Root"])
	if err != nil {
		return nil, fmt.Errorf("catalog: %v", err)
	}
	if root["Type"] != Name("Catalog") {
		return nil, fmt.Errorf("catalog /Type is %v", root["Type"])
	}
	var out []Page
	seen := map[int]bool{}
	var walk func(v Val, parent int, inh Dict) (int, error)
	walk = func(v Val, parent int, inh Dict) (int, error) {
		r, ok := v.(Ref)
		if !ok {
			return 0, fmt.Errorf("page tree link is %T", v)
		}
		if seen[r.N] {
			return 0, fmt.Errorf("page tree node %d occurs twice", r.N)
		}
		seen[r.N] = true
		d, err := f.DictOf(r)
		if err != nil {
			return 0, fmt.Errorf("page tree node %d: %v", r.N, err)
		}
		if parent != 0 {
			p, ok := d["Parent"].(Ref)
			if !ok || p.N != parent {
				return 0, fmt.Errorf("node %d: /Parent is %v, should be %d", r.N, d["Parent"], parent)
			}
		}
		ni := Dict{}
		for k, x := range inh {
			ni[k] = x
		}
		for _, k := range []string{"MediaBox", "Resources", "Rotate", "CropBox"} {
			if x, ok := d[k]; ok {
				ni[k] = x
			}
		}
		switch d["Type"] {
		case Name("Page"):
			out = append(out, Page{r.N, d, ni})
			return 1, nil
		case Name("Pages"):
		default:
			return 0, fmt.Errorf("node %d has /Type %v", r.N, d["Type"])
		}
		kv, err := f.Deref(d["Kids"])
		if err != nil {
			return 0, err
		}
		kids, ok := kv.(Arr)
		if !ok {
			return 0, fmt.Errorf("node %d: /Kids is %T", r.N, kv)
		}
		n := 0
		for _, k := range kids {
			c, err := walk(k, r.N, ni)
			if err != nil {
				return 0, err
			}
			n += c
		}
		cv, err := f.Deref(d["Count"])
		if err != nil {
			return 0, err
		}
		if cv != n {
			return 0, fmt.Errorf("node %d: /Count %v but %d leaves", r.N, d["Count"], n)
		}
		return n, nil
	}
	if _, err := walk(root["Pages"], 0, Dict{}); err != nil {
		return nil, err
	}
	return out, nil
}

// CheckAll reads every object in use and checks that every reference reachable
// from the trailer resolves to an object in use.
func (f *File) CheckAll() error {
	for _, n := range f.Nums() {
		if _, err := f.Get(n); err != nil {
			return err
		}
	}
	return f.CheckRefs(f.Trailer)
}

func (f *File) CheckRefs(from Val) error {
	seen := map[int]bool{}
	var walk func(v Val, path string) error
	walk = func(v Val, path string) error {
		switch x := v.(type) {
		case Ref:
			if seen[x.N] {
				return nil
			}
			seen[x.N] = true
			e, ok := f.X[x.N]
			if !ok || e.Kind == 'f' {
				return fmt.Errorf("dangling reference %d %d R at %s", x.N, x.G, path)
			}
			if x.N >= f.Size {
				return fmt.Errorf("reference %d %d R at %s beyond /Size", x.N, x.G, path)
			}
			o, err := f.Get(x.N)
			if err != nil {
				return err
			}
			return walk(o, fmt.Sprintf("%s->%d", path, x.N))
		case Arr:
			for i, e := range x {
				if err := walk(e, fmt.Sprintf("%s[%d]", path, i)); err != nil {
					return err
				}
			}
		case Dict:
			for k, e := range x {
				if err := walk(e, path+"/"+k); err != nil {
					return err
				}
			}
		case *Stream:
			return walk(x.D, path)
		}
		return nil
	}
	return walk(from, "")
}
