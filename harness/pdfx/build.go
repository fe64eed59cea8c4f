package pdfx

import (
	"bytes"
	"fmt"
	"math/rand"
	"sort"
)

// Obj is an object to be written in a revision.
type Obj struct {
	N, G   int
	V      Val
	Packed bool // in an object stream
	Enc    func(n, g int, b []byte, stream bool) []byte
}

// Layout fixes how a revision is serialised; every choice is legal PDF.
type Layout struct {
	EntryEOL   string // " \n", " \r", "\r\n"
	XEOL       string // line ending in the cross-reference table
	EmptySub   int    // 1: an empty subsection first, 2: last
	HideFree   bool   // hybrid: list hidden objects as free in the table
	OneByOne   bool   // one xref subsection per object
	EOL        string // line ending elsewhere
	ObjSep     string // between "obj" and the body
	W          [3]int
	W0         bool // first field width 0 where legal
	Index      bool // always write /Index
	Pred       int  // 0, or 10+filter (15: a mix)
	PlainXRef  bool // no filter on the cross-reference stream
	PlainObjS  bool // no filter on object streams
	ObjSPad    int  // blanks in front of /First
	ObjSSep    string
	PerStream  int // objects per object stream
	Comment    bool
	TrailerTop bool // /Prev first in the trailer
	ID         bool
	DictSep    string // between keys
	IndLen     bool   // stream /Length as a reference
	Compact    bool   // no optional blanks in dictionaries
	TailEOL    string
	StrStyle   int // how strings are written: escaped, hex, hex with blanks, raw
}

func RandLayout(r *rand.Rand) Layout {
	pick := func(xs ...string) string { return xs[r.Intn(len(xs))] }
	l := Layout{
		EntryEOL:   pick(" \n", "\r\n", " \r"),
		XEOL:       pick("\n", "\r\n", "\r"),
		EmptySub:   []int{0, 0, 0, 1, 2}[r.Intn(5)],
		HideFree:   r.Intn(2) == 0,
		OneByOne:   r.Intn(3) == 0,
		EOL:        pick("\n", "\r\n"),
		ObjSep:     pick("\n", "\r\n", " ", ""),
		W:          [][3]int{{1, 2, 1}, {1, 3, 2}, {1, 4, 2}, {2, 4, 1}, {1, 8, 2}}[r.Intn(5)],
		W0:         r.Intn(4) == 0,
		Index:      r.Intn(2) == 0,
		Pred:       []int{0, 0, 10, 11, 12, 12, 13, 14, 15}[r.Intn(9)],
		PlainXRef:  r.Intn(6) == 0,
		PlainObjS:  r.Intn(6) == 0,
		ObjSPad:    r.Intn(3),
		ObjSSep:    pick(" ", "\n", "\r\n", "  \n"),
		PerStream:  1 + r.Intn(4),
		Comment:    r.Intn(4) == 0,
		TrailerTop: r.Intn(2) == 0,
		ID:         r.Intn(2) == 0,
		DictSep:    pick(" ", "\n", "\r\n"),
		IndLen:     r.Intn(5) == 0,
		Compact:    r.Intn(3) == 0,
		TailEOL:    pick("\n", "\r\n"),
		StrStyle:   r.Intn(5),
	}
	return l
}

// Styled value writer.
func (l *Layout) val(b *bytes.Buffer, v Val) {
	switch x := v.(type) {
	case Dict:
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		b.WriteString("<<")
		for i, k := range ks {
			if i > 0 || !l.Compact {
				b.WriteString(l.DictSep)
			}
			WriteName(b, k)
			switch x[k].(type) {
			case Dict, Arr, Str, Name:
				if !l.Compact {
					b.WriteByte(' ')
				}
			default:
				b.WriteByte(' ')
			}
			l.val(b, x[k])
		}
		if !l.Compact {
			b.WriteString(l.DictSep)
		}
		b.WriteString(">>")
	case Arr:
		b.WriteByte('[')
		for i, e := range x {
			if i > 0 || !l.Compact {
				b.WriteByte(' ')
			}
			l.val(b, e)
		}
		if !l.Compact {
			b.WriteByte(' ')
		}
		b.WriteByte(']')
	case Str:
		l.str(b, x)
	default:
		WriteTo(b, v)
	}
}

func (l *Layout) str(b *bytes.Buffer, s Str) {
	switch l.StrStyle {
	case 1:
		fmt.Fprintf(b, "<%X>", []byte(s))
	case 2:
		b.WriteString("< ")
		for i, c := range []byte(s) {
			x := fmt.Sprintf("%02x", c)
			if i == len(s)-1 && x[1] == '0' {
				x = x[:1] // a missing last digit is 0
			}
			if i%16 == 15 {
				x = x + l.EOL
			} else if i%5 == 4 {
				x = x[:1] + " " + x[1:]
			}
			b.WriteString(x)
		}
		b.WriteString(" >")
	case 3: // as few escapes as possible
		b.WriteByte('(')
		close := map[int]bool{}
		var open []int
		for i, c := range []byte(s) { // balanced parentheses need none
			if c == '(' {
				open = append(open, i)
			} else if c == ')' && len(open) > 0 {
				close[i], close[open[len(open)-1]] = true, true
				open = open[:len(open)-1]
			}
		}
		for i, c := range []byte(s) {
			switch {
			case (c == '(' || c == ')') && close[i]:
				b.WriteByte(c)
			case c == '(' || c == ')' || c == '\\':
				b.WriteByte('\\')
				b.WriteByte(c)
			case c == '\r':
				b.WriteString("\\r")
			default:
				b.WriteByte(c)
			}
			if i%40 == 39 {
				b.WriteString("\\\n") // continued on the next line
			}
		}
		b.WriteByte(')')
	default:
		WriteStr(b, s)
	}
}

// Section is what a builder remembers of a revision it wrote.
type Section struct {
	Start, End int // bytes of the revision
	X          map[int]Entry
	Raw        map[int][2]int // object number -> byte range "N G obj".."endobj"
	XRefOff    int
	Kind       string
}

type Builder struct {
	Buf      bytes.Buffer
	Prev     int
	Next     int // next fresh object number for helpers
	Sections []Section
	All      map[int]Entry // newest entry per object
	Bodies   map[int]Val   // newest body per object in use
	IDVal    Arr
	Encrypt  Val // trailer /Encrypt
	// Mangle may change structural streams (object streams, cross-reference
	// streams) and trailers (no data) before they are written.
	Mangle func(st *Stream)
}

func NewBuilder(version string, first int) *Builder {
	b := &Builder{Next: first, All: map[int]Entry{}, Bodies: map[int]Val{}}
	b.Buf.WriteString("%PDF-" + version + "\n%\xe2\xe3\xcf\xd3\n")
	return b
}

func (b *Builder) fresh() int { n := b.Next; b.Next++; return n }

// Append writes one revision: kind "table" or "xstm"; frees maps object
// number to the generation its next use will have.
func (b *Builder) Append(kind string, objs []Obj, frees map[int]int, root Ref, info *Ref, l Layout) {
	s := Section{Start: b.Buf.Len(), X: map[int]Entry{}, Raw: map[int][2]int{}, Kind: kind}
	if len(b.Sections) == 0 {
		s.Start = 0
	}
	var packed []Obj
	hidden := map[int]bool{}
	put := func(o Obj) {
		if l.Comment {
			fmt.Fprintf(&b.Buf, "%% object %d follows%s", o.N+7, l.EOL)
		}
		start := b.Buf.Len()
		fmt.Fprintf(&b.Buf, "%d %d obj", o.N, o.G)
		var body bytes.Buffer
		v := o.V
		if o.Enc != nil {
			v = encVal(v, o.N, o.G, o.Enc)
		}
		if st, ok := v.(*Stream); ok {
			l.val(&body, st.D)
			body.WriteString(l.EOL + "stream" + l.EOL)
			body.Write(st.Raw)
			body.WriteString(l.EOL + "endstream")
		} else {
			l.val(&body, v)
		}
		sep := l.ObjSep
		if sep == "" && body.Len() > 0 && !IsDelim(body.Bytes()[0]) {
			sep = " "
		}
		b.Buf.WriteString(sep)
		b.Buf.Write(body.Bytes())
		b.Buf.WriteString(l.EOL + "endobj")
		s.Raw[o.N] = [2]int{start, b.Buf.Len()}
		b.Buf.WriteString(l.EOL)
		s.X[o.N] = Entry{'n', start, o.G}
		b.Bodies[o.N] = o.V
	}
	for _, o := range objs {
		if o.Packed {
			packed = append(packed, o)
			continue
		}
		if st, ok := o.V.(*Stream); ok {
			d := Dict{}
			for k, v := range st.D {
				d[k] = v
			}
			n := len(st.Raw)
			if o.Enc != nil {
				n = len(o.Enc(o.N, o.G, st.Raw, true))
			}
			if k := len(st.Raw); l.IndLen && o.Enc == nil && (k == 0 || (st.Raw[k-1] != '\r' && st.Raw[k-1] != '\n')) {
				// (data ending in an EOL would be ambiguous without resolving the reference)
				if bytes.Contains(st.Raw, []byte("endstream")) {
					st.Raw = bytes.ReplaceAll(st.Raw, []byte("endstream"), []byte("endstrm"))
				}
				n = len(st.Raw)
				ln := b.fresh()
				d["Length"] = Ref{ln, 0}
				o.V = &Stream{D: d, Raw: st.Raw}
				if len(objs)%2 == 0 {
					put(Obj{N: ln, V: n, Enc: o.Enc})
					put(o)
				} else {
					put(o)
					put(Obj{N: ln, V: n, Enc: o.Enc})
				}
				continue
			}
			d["Length"] = n
			o.V = &Stream{D: d, Raw: st.Raw}
		}
		put(o)
	}
	for len(packed) > 0 {
		k := l.PerStream
		if k > len(packed) || k < 1 {
			k = len(packed)
		}
		grp := packed[:k]
		packed = packed[k:]
		sn := b.fresh()
		hidden[sn] = true
		var head, body bytes.Buffer
		for i, o := range grp {
			if i > 0 {
				head.WriteByte(' ')
			}
			fmt.Fprintf(&head, "%d %d", o.N, body.Len())
			l.val(&body, o.V)
			body.WriteString(l.ObjSSep)
			s.X[o.N] = Entry{'z', sn, i}
			b.Bodies[o.N] = o.V
		}
		head.WriteByte(' ')
		for i := 0; i < l.ObjSPad; i++ {
			head.WriteByte(' ')
		}
		first := head.Len()
		head.Write(body.Bytes())
		st := &Stream{D: Dict{"Type": Name("ObjStm"), "N": len(grp), "First": first}, Raw: head.Bytes()}
		if !l.PlainObjS {
			st.Raw = Deflate(st.Raw)
			st.D["Filter"] = Name("FlateDecode")
		}
		o := Obj{N: sn, V: st, Enc: grp[0].Enc}
		n := len(st.Raw)
		if o.Enc != nil {
			n = len(o.Enc(sn, 0, st.Raw, true))
		}
		st.D["Length"] = n
		if b.Mangle != nil {
			b.Mangle(st)
		}
		put(o)
	}
	for n, g := range frees {
		s.X[n] = Entry{'f', 0, g}
	}
	if len(b.Sections) == 0 {
		s.X[0] = Entry{'f', 0, 65535}
	}
	for n, e := range s.X {
		b.All[n] = e
		if e.Kind == 'f' {
			delete(b.Bodies, n)
		}
	}
	tr := Dict{"Root": root}
	if info != nil {
		tr["Info"] = *info
	}
	if b.Encrypt != nil {
		tr["Encrypt"] = b.Encrypt
	}
	if b.Prev > 0 {
		tr["Prev"] = b.Prev
	}
	if l.ID && b.IDVal == nil {
		b.IDVal = Arr{Str("\x00>>stream<<\xff/Prev 3"), Str("second)(id")}
	}
	if b.IDVal != nil {
		tr["ID"] = b.IDVal
	}
	if kind == "table" {
		s.XRefOff = b.Buf.Len()
		b.table(&s, s.X, tr, l)
	} else if kind == "hybrid" {
		xn := b.fresh()
		off := b.Buf.Len()
		s.X[xn] = Entry{'n', off, 0}
		b.All[xn] = s.X[xn]
		hidden[xn] = true
		tab, hid := map[int]Entry{}, map[int]Entry{}
		for n, e := range s.X {
			if e.Kind == 'z' || hidden[n] {
				hid[n] = e
				if l.HideFree {
					tab[n] = Entry{'f', 0, 65535}
				}
			} else {
				tab[n] = e
			}
		}
		b.xstm(xn, &s, hid, Dict{}, l)
		s.XRefOff = b.Buf.Len()
		tr["XRefStm"] = off
		b.table(&s, tab, tr, l)
	} else {
		xn := b.fresh()
		s.XRefOff = b.Buf.Len()
		s.X[xn] = Entry{'n', s.XRefOff, 0}
		b.All[xn] = s.X[xn]
		b.xstm(xn, &s, s.X, tr, l)
	}
	fmt.Fprintf(&b.Buf, "startxref%s%d%s%%%%EOF%s", l.EOL, s.XRefOff, l.EOL, l.TailEOL)
	s.End = b.Buf.Len()
	b.Prev = s.XRefOff
	b.Sections = append(b.Sections, s)
}

func (b *Builder) size() int {
	m := 0
	for n := range b.All {
		if n > m {
			m = n
		}
	}
	return m + 1
}

// runs groups the section's object numbers into subsections.
func runs(x map[int]Entry, single bool) [][]int {
	var ks []int
	for k := range x {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	var out [][]int
	for i, k := range ks {
		if i > 0 && !single && ks[i-1] == k-1 {
			out[len(out)-1] = append(out[len(out)-1], k)
		} else {
			out = append(out, []int{k})
		}
	}
	return out
}

func (b *Builder) table(s *Section, x map[int]Entry, tr Dict, l Layout) {
	fmt.Fprintf(&b.Buf, "xref%s", l.XEOL)
	if l.EmptySub == 1 || len(x) == 0 {
		fmt.Fprintf(&b.Buf, "0 0%s", l.XEOL)
	}
	for _, r := range runs(x, l.OneByOne) {
		fmt.Fprintf(&b.Buf, "%d %d%s", r[0], len(r), l.XEOL)
		for _, n := range r {
			e := x[n]
			k := e.Kind
			fmt.Fprintf(&b.Buf, "%010d %05d %c%s", e.Off, e.Gen, k, l.EntryEOL)
		}
	}
	if l.EmptySub == 2 {
		fmt.Fprintf(&b.Buf, "0 0%s", l.XEOL)
	}
	tr["Size"] = b.size()
	if b.Mangle != nil {
		b.Mangle(&Stream{D: tr})
	}
	fmt.Fprintf(&b.Buf, "trailer%s", l.EOL)
	l.val(&b.Buf, tr)
	b.Buf.WriteString(l.EOL)
}

func (b *Builder) xstm(xn int, s *Section, x map[int]Entry, d Dict, l Layout) {
	w := l.W
	plain := true
	maxOff := 0
	for _, e := range x {
		if e.Kind != 'n' {
			plain = false
		}
		if e.Off > maxOff {
			maxOff = e.Off
		}
		if e.Gen > 255 && w[2] < 2 {
			w[2] = 2
		}
	}
	for w[1] < 8 && maxOff >= 1<<(8*uint(w[1])) {
		w[1]++
	}
	if plain && l.W0 {
		w[0] = 0
	}
	var data bytes.Buffer
	idx := Arr{}
	rs := runs(x, l.OneByOne)
	for _, r := range rs {
		idx = append(idx, r[0], len(r))
		for _, n := range r {
			e := x[n]
			t := map[byte]int{'f': 0, 'n': 1, 'z': 2}[e.Kind]
			for i, v := range []int{t, e.Off, e.Gen} {
				for q := w[i] - 1; q >= 0; q-- {
					if q >= 8 {
						data.WriteByte(0)
					} else {
						data.WriteByte(byte(v >> (8 * uint(q))))
					}
				}
			}
		}
	}
	size := b.size()
	if l.Index || len(rs) != 1 || rs[0][0] != 0 || len(rs[0]) != size {
		d["Index"] = idx
	}
	d["Type"] = Name("XRef")
	d["Size"] = size
	d["W"] = Arr{w[0], w[1], w[2]}
	raw := data.Bytes()
	if !l.PlainXRef {
		if l.Pred >= 10 {
			cols := w[0] + w[1] + w[2]
			raw = PredEncode(raw, cols, 1, func(row int) byte {
				if l.Pred == 15 {
					return byte(row % 5)
				}
				return byte(l.Pred - 10)
			})
			d["DecodeParms"] = Dict{"Predictor": l.Pred, "Columns": cols}
		}
		raw = Deflate(raw)
		d["Filter"] = Name("FlateDecode")
	}
	d["Length"] = len(raw)
	if b.Mangle != nil {
		st := &Stream{D: d, Raw: raw}
		b.Mangle(st)
		raw = st.Raw
	}
	start := b.Buf.Len()
	fmt.Fprintf(&b.Buf, "%d 0 obj%s", xn, l.EOL)
	l.val(&b.Buf, d)
	b.Buf.WriteString(l.EOL + "stream" + l.EOL)
	b.Buf.Write(raw)
	b.Buf.WriteString(l.EOL + "endstream" + l.EOL + "endobj")
	s.Raw[xn] = [2]int{start, b.Buf.Len()}
	b.Buf.WriteString(l.EOL)
	b.Bodies[xn] = &Stream{D: d, Raw: raw}
}

func encVal(v Val, n, g int, enc func(n, g int, b []byte, stream bool) []byte) Val {
	switch x := v.(type) {
	case Str:
		return Str(enc(n, g, x, false))
	case Arr:
		o := Arr{}
		for _, e := range x {
			o = append(o, encVal(e, n, g, enc))
		}
		return o
	case Dict:
		o := Dict{}
		for k, e := range x {
			o[k] = encVal(e, n, g, enc)
		}
		return o
	case *Stream:
		return &Stream{D: encVal(x.D, n, g, enc).(Dict), Raw: enc(n, g, x.Raw, true)}
	}
	return v
}

// Style renders a value in this layout.
func (l *Layout) Style(v Val) []byte {
	var b bytes.Buffer
	l.val(&b, v)
	return b.Bytes()
}
