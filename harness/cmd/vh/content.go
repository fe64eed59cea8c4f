package main

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"unicode/utf16"

	"github.com/benedoc-inc/pdfer/content/extract"
	"github.com/benedoc-inc/pdfer/types"
	"verif/harness/pdfx"
)

// P08: programs of ContentStream.tla written as page content in every legal
// way and extracted.

func init() { props["P08"] = contentReplay }

type csOp struct {
	Op     string
	M      []float64
	V      interface{}
	F      int
	X, Y   float64
	N      int
	Tw, Tc float64
	B      []float64
	Segs   []struct {
		K    string
		X, Y float64
	}
}

type csElem struct {
	Kind                 string
	First, N, Font       int
	Size, Tc, Tw, Ts, Lw float64
	Tm, At, Box, M, A, B []float64
	Fill, Stroke         []interface{}
}

// csFont is a font with characters it can show and how it codes them.
type csFont struct {
	chars []string
	code  map[string][]byte
	dict  pdfx.Dict
}

const asciiChars = "ABCabcxyz0189 .,;:!?#%&*+-/<=>@[]^_{|}~()\\\"'$"

// high codes of MacRomanEncoding and StandardEncoding (Annex D.2); those left
// out are not in the encoding or differ from Mac OS Roman.
var (
	macHigh      = []rune("ÄÅÇÉÑÖÜáàâäãåçéèêëíìîïñóòôöõúùûü†°¢£§•¶ß®©™´¨�ÆØ�±��¥µ�����ªº�æø¿¡¬�ƒ��«»…�ÀÃÕŒœ–—“”‘’÷�ÿ�⁄�‹›ﬁﬂ‡·‚„‰ÂÊÁËÈÍÎÏÌÓÔ�ÒÚÛÙ�ˆ˜¯˘˙˚¸˝˛ˇ")
	standardHigh = []rune("�¡¢£⁄¥ƒ§¤'“«‹›ﬁﬂ�–†‡·�¶•‚„”»…‰�¿�`´ˆ˜¯˘˙¨�˚¸�˝˛ˇ—����������������Æ�ª����ŁØŒº�����æ���ı��łøœß����")
)

// newFonts makes the fonts of a document; toUnicode CMaps are streams the
// caller turns into objects.
func newFonts(r *rand.Rand, stream func(data []byte) pdfx.Val) map[int]*csFont {
	fonts := map[int]*csFont{}
	ascii := func() *csFont {
		f := &csFont{code: map[string][]byte{}}
		for _, c := range asciiChars {
			f.put(string(c), []byte{byte(c)})
		}
		return f
	}
	fonts[0] = ascii()
	delete(fonts[0].code, "'") // StandardEncoding has quoteright there
	fonts[0].chars = strings.Split("ABCabcxyz0189 .,;:!?#%&*+-/<=>@[]^_{|}~()\\", "")

	// 1: a base encoding
	f := ascii()
	base := "WinAnsiEncoding"
	high := func(from int, table []rune) {
		for i, c := range table {
			if c != '\uFFFD' && r.Intn(2) == 0 {
				f.put(string(c), []byte{byte(from + i)})
			}
		}
	}
	switch r.Intn(3) {
	case 0:
		for c, b := range map[string]byte{"é": 0xe9, "–": 0x96, "“": 0x93, "”": 0x94, "€": 0x80, "Ž": 0x8e, "ß": 0xdf, "©": 0xa9, "•": 0x95, "ÿ": 0xff} {
			f.put(c, []byte{b})
		}
	case 1:
		base = "MacRomanEncoding"
		high(0x80, macHigh)
	default:
		base = "StandardEncoding"
		delete(f.code, "'")
		delete(f.code, "`")
		f.put("’", []byte{0x27})
		f.put("‘", []byte{0x60})
		high(0xa0, standardHigh)
	}
	f.dict = pdfx.Dict{"Type": pdfx.Name("Font"), "Subtype": pdfx.Name("Type1"), "BaseFont": pdfx.Name("Helvetica"), "Encoding": pdfx.Name(base)}
	if r.Intn(4) == 0 {
		f.dict["Encoding"] = pdfx.Dict{"Type": pdfx.Name("Encoding"), "BaseEncoding": pdfx.Name(base)}
	}
	f.sort()
	fonts[1] = f

	// 2: differences from a base encoding: some letters swapped
	f = ascii()
	names := map[string]string{"A": "A", "B": "B", "C": "C", "a": "a", "b": "b", "x": "x", "Š": "Scaron", "é": "eacute", "€": "Euro", "ł": "lslash", "•": "bullet", "Ā": "uni0100"}
	codes := r.Perm(26)
	diffs := pdfx.Arr{}
	i, next := 0, -1
	taken := map[byte]bool{}
	var order []string
	for c := range names {
		order = append(order, c)
	}
	sort.Strings(order)
	for _, c := range order {
		delete(f.code, c)
	}
	for _, c := range order {
		b := byte('A' + codes[i])
		if r.Intn(3) == 0 && i > 0 {
			b = byte(next)
		}
		if taken[b] || b < 'A' || b > 'Z' {
			b = byte(0x80 + i)
		}
		taken[b] = true
		if int(b) != next || r.Intn(4) == 0 {
			diffs = append(diffs, int(b))
		}
		next = int(b) + 1
		diffs = append(diffs, pdfx.Name(names[c]))
		for old, x := range f.code {
			if x[0] == b {
				delete(f.code, old)
			}
		}
		f.code[c] = []byte{b}
		i++
	}
	enc := pdfx.Dict{"Type": pdfx.Name("Encoding"), "Differences": diffs, "BaseEncoding": pdfx.Name("WinAnsiEncoding")}
	f.dict = pdfx.Dict{"Type": pdfx.Name("Font"), "Subtype": pdfx.Name("TrueType"), "BaseFont": pdfx.Name("Times-Roman"), "Encoding": enc}
	f.sort()
	if r.Intn(2) == 0 { // a ToUnicode CMap has precedence over the encoding where it has the code
		over := map[string][]byte{}
		var cs []string
		for _, k := range r.Perm(len(f.chars))[:2+r.Intn(10)] {
			cs = append(cs, f.chars[k])
		}
		for k, c := range cs {
			over[c] = f.code[cs[(k+1)%len(cs)]]
		}
		for c, b := range over {
			f.code[c] = b
		}
		f.dict["ToUnicode"] = stream(cmapFor(r, over, 1))
	}
	fonts[2] = f

	// 3: two-byte codes with a ToUnicode CMap
	f = &csFont{code: map[string][]byte{}}
	first := 0x100 + r.Intn(0xf000)
	for j, c := range strings.Split("ABCabcxyz019 éΩ漢字€ł", "") {
		f.put(c, []byte{byte((first + j) >> 8), byte(first + j)})
	}
	for j, c := range []string{"😀", "ffi", "e\u0301"} {
		f.put(c, []byte{byte((first + 300 + 2*j) >> 8), byte(first + 300 + 2*j)})
	}
	f.sort()
	f.dict = pdfx.Dict{"Type": pdfx.Name("Font"), "Subtype": pdfx.Name("Type0"), "BaseFont": pdfx.Name("ABCDEF+Deja"), "Encoding": pdfx.Name("Identity-H"),
		"DescendantFonts": pdfx.Arr{pdfx.Dict{"Type": pdfx.Name("Font"), "Subtype": pdfx.Name("CIDFontType2"), "BaseFont": pdfx.Name("ABCDEF+Deja")}},
		"ToUnicode":       stream(cmapFor(r, f.code, 2))}
	fonts[3] = f
	return fonts
}

func (f *csFont) put(c string, b []byte) { f.code[c] = b; f.chars = append(f.chars, c) }

func (f *csFont) sort() {
	f.chars = nil
	for c := range f.code {
		f.chars = append(f.chars, c)
	}
	sort.Strings(f.chars)
}

// cmapFor writes a ToUnicode CMap with the mapping, cut into bfchar and bfrange
// entries at random.
func cmapFor(r *rand.Rand, code map[string][]byte, n int) []byte {
	to := map[int]string{}
	var cs []int
	for c, b := range code {
		k := 0
		for _, x := range b {
			k = k<<8 | int(x)
		}
		to[k] = c
		cs = append(cs, k)
	}
	sort.Ints(cs)
	hexU := func(s string) string {
		o := ""
		for _, u := range utf16.Encode([]rune(s)) {
			o += fmt.Sprintf("%04X", u)
		}
		if r.Intn(2) == 0 {
			o = strings.ToLower(o)
		}
		return "<" + o + ">"
	}
	src := func(k int) string { return fmt.Sprintf("<%0*X>", 2*n, k) }
	sep := func() string { return []string{" ", "", "\n"}[r.Intn(3)] }
	var b strings.Builder
	b.WriteString("/CIDInit /ProcSet findresource begin\n12 dict begin\nbegincmap\n/CIDSystemInfo << /Registry (Adobe) /Ordering (UCS) /Supplement 0 >> def\n/CMapName /Adobe-Identity-UCS def\n/CMapType 2 def\n1 begincodespacerange\n")
	b.WriteString(src(0) + sep() + src(1<<(8*n)-1) + "\nendcodespacerange\n")
	for i := 0; i < len(cs); {
		if r.Intn(2) == 0 {
			k := 1 + r.Intn(len(cs)-i)
			fmt.Fprintf(&b, "%d beginbfchar\n", k)
			for ; k > 0; k-- {
				b.WriteString(src(cs[i]) + sep() + hexU(to[cs[i]]) + "\n")
				i++
			}
			b.WriteString("endbfchar\n")
			continue
		}
		k := i
		for k+1 < len(cs) && cs[k+1] == cs[k]+1 && cs[k+1]>>8 == cs[i]>>8 {
			k++
		}
		k = i + r.Intn(k-i+1)
		b.WriteString("1 beginbfrange\n" + src(cs[i]) + sep() + src(cs[k]) + sep())
		run := true
		for j := i; j <= k; j++ {
			a, c := []rune(to[cs[i]]), []rune(to[cs[j]])
			if len(a) != 1 || len(c) != 1 || c[0] != a[0]+rune(j-i) || a[0]&0xff+rune(j-i) > 0xff {
				run = false
			}
		}
		if run && (k > i || r.Intn(2) == 0) {
			b.WriteString(hexU(to[cs[i]]))
		} else {
			b.WriteString("[")
			for j := i; j <= k; j++ {
				b.WriteString(sep() + hexU(to[cs[j]]))
			}
			b.WriteString(sep() + "]")
		}
		b.WriteString("\nendbfrange\n")
		i = k + 1
	}
	b.WriteString("endcmap\nCMapName currentdict /CMap defineresource pop\nend\nend")
	return []byte(b.String())
}

// csScope is a resource dictionary under construction.
type csScope struct {
	fonts map[int]string
	xobj  pdfx.Dict
	names map[string]bool
}

type csWriter struct {
	r       *rand.Rand
	d       *genDoc
	unit    float64
	ops     []csOp
	pos     int
	strs    []string // text of each string shown
	strFont []int
	shown   int
	fonts   map[int]*csFont
	fontRef map[int]pdfx.Val
	image   pdfx.Ref
	font    string   // current font resource name
	elFonts []string // font names of text elements, in order
	elImgs  []string // names of image elements
	layout  pdfx.Layout
}

func (w *csWriter) scope() *csScope {
	s := &csScope{fonts: map[int]string{}, xobj: pdfx.Dict{}, names: map[string]bool{}}
	perm := w.r.Perm(3)
	for f := 1; f <= 3; f++ {
		name := fmt.Sprintf("F%d", perm[f-1])
		if w.r.Intn(4) == 0 {
			name = []string{"Tj", "F#1", "R 0", "q"}[perm[f-1]]
		}
		s.fonts[f] = name
	}
	return s
}

func (w *csWriter) indirect(v pdfx.Val) pdfx.Val {
	if w.r.Intn(2) == 0 {
		return w.d.add(v)
	}
	return v
}

// dict is the finished resource dictionary.
func (w *csWriter) dict(s *csScope) pdfx.Val {
	fonts := pdfx.Dict{}
	for f, n := range s.fonts {
		fonts[n] = w.fontRef[f]
	}
	res := pdfx.Dict{"Font": w.indirect(fonts), "ProcSet": pdfx.Arr{pdfx.Name("PDF"), pdfx.Name("Text")}}
	if len(s.xobj) > 0 || w.r.Intn(2) == 0 {
		res["XObject"] = w.indirect(s.xobj)
	}
	return w.indirect(res)
}

func (w *csWriter) num(f float64) string {
	f *= w.unit
	s := strconv.FormatFloat(f, 'f', -1, 64)
	switch w.r.Intn(8) {
	case 0:
		if !strings.Contains(s, ".") {
			s += []string{".", ".0", ".000"}[w.r.Intn(3)]
		}
	case 1:
		if f >= 0 {
			s = "+" + s
		}
	case 2:
		if strings.HasPrefix(s, "0.") {
			s = s[1:]
		} else if strings.HasPrefix(s, "-0.") {
			s = "-" + s[2:]
		} else if strings.Contains(s, ".") {
			s = strconv.FormatFloat(f, 'f', 4, 64)
		}
	case 3:
		if f > 0 {
			s = "0" + s
		}
	}
	return s
}

// plain writes a number that is not a length.
func (w *csWriter) plain(f float64) string {
	u := w.unit
	w.unit = 1
	s := w.num(f)
	w.unit = u
	return s
}

func (w *csWriter) matrix(m []float64) []string {
	var o []string
	for i, x := range m {
		if i < 4 {
			o = append(o, w.plain(x))
		} else {
			o = append(o, w.num(x))
		}
	}
	return o
}

func (w *csWriter) name(n string) string {
	s := string(pdfx.Write(pdfx.Name(n)))
	if w.r.Intn(6) == 0 && len(s) > 1 && s[1] != '#' {
		s = fmt.Sprintf("/#%02x%s", s[1], s[2:])
	}
	return s
}

// str writes the next string to be shown.
func (w *csWriter) str() string {
	f := w.fonts[w.strFont[w.shown]]
	var b []byte
	n := 1 + w.r.Intn(9)
	text := ""
	for i := 0; i < n; i++ {
		c := f.chars[w.r.Intn(len(f.chars))]
		text += c
		b = append(b, f.code[c]...)
	}
	w.strs = append(w.strs, text)
	w.shown++
	return strLiteral(w.r, b)
}

// strLiteral writes a string one of the ways it can be written.
func strLiteral(r *rand.Rand, b []byte) string {
	if r.Intn(4) > 0 {
		l := pdfx.Layout{StrStyle: r.Intn(5), EOL: "\n"}
		return string(l.Style(pdfx.Str(b)))
	}
	var o strings.Builder
	o.WriteByte('(')
	for i, c := range b {
		plain := c != '(' && c != ')' && c != '\\' && c != '\r'
		esc := map[byte]string{'\n': "\\n", '\r': "\\r", '\t': "\\t", '\b': "\\b", '\f': "\\f", '(': "\\(", ')': "\\)", '\\': "\\\\"}[c]
		switch k := r.Intn(6); {
		case k < 3 && plain:
			o.WriteByte(c)
		case k < 4 && esc != "":
			o.WriteString(esc)
		case k == 4 && (i+1 == len(b) || b[i+1] < '0' || b[i+1] > '9'):
			fmt.Fprintf(&o, "\\%o", c)
		default:
			fmt.Fprintf(&o, "\\%03o", c)
		}
		if r.Intn(12) == 0 {
			o.WriteString([]string{"\\\n", "\\\r\n"}[r.Intn(2)])
		}
	}
	o.WriteByte(')')
	return o.String()
}

func (w *csWriter) color(v interface{}, stroke bool) []string {
	c := v.([]interface{})
	op := map[string]string{"rgb": "rg", "gray": "g", "cmyk": "k"}[c[0].(string)]
	if stroke {
		op = strings.ToUpper(op)
	}
	var o []string
	for _, x := range c[1:] {
		o = append(o, w.plain(x.(float64)/4))
	}
	return append(o, op)
}

func (w *csWriter) noise(inText bool) []string {
	xs := [][]string{
		{"1", "J"}, {"0", "j"}, {"10", "M"}, {"[", "3", "2", "]", "0", "d"}, {"[", "]", "0", "d"}, {"50", "i"}, {"/RelativeColorimetric", "ri"},
		{"/Span", "BMC", "EMC"}, {"/Span", "<<", "/ActualText", "(BT (x) Tj ET)", ">>", "BDC", "EMC"}, {"/MC0", "MP"}, {"100", "Tz"}, {"0", "Tr"},
		{"/GS0", "gs"}, {"/Artifact", "<</Type/Pagination/BBox[0 0 10 10]>>", "BDC", "EMC"}, {"BX", "EX"},
	}
	if !inText {
		xs = append(xs, [][]string{
			{"0", "0", "m", "1", "1", "2", "2", "3", "3", "c", "h", "f"},
			{"BI /W 4 /H 1 /BPC 8 /CS /G ID (Tj EI>>x EI"},
			{"BI /W 7 /H 1 /BPC 8 /CS /G ID \xffq EIx( EI"},
			{"BI /W 9 /H 1 /BPC 8 /CS /G ID xEI q\nEI\x01\x00 EI"},
			{"BI\n/W 3\n/H 1\n/BPC 8\n/CS /RGB\n/F [/AHx]\nID 00 11 22 33 44 55 66 77 88>\nEI"},
			{"/Sh0", "sh"},
			{"BT", "ET"},
			{"q", "2", "0", "0", "2", "5", "5", "cm", "Q"},
			{"q", "1", "0", "0", "RG", "7", "w", "Q"},
		}...)
	}
	return xs[w.r.Intn(len(xs))]
}

// run writes the operators up to the end of the form it is in.
func (w *csWriter) run(s *csScope) []string {
	var o []string
	var saved []string
	in := false
	for w.pos < len(w.ops) {
		op := w.ops[w.pos]
		w.pos++
		if w.r.Intn(6) == 0 {
			o = append(o, w.noise(in)...)
		}
		switch op.Op {
		case "q":
			saved = append(saved, w.font)
			o = append(o, "q")
		case "Q":
			if n := len(saved); n > 0 {
				w.font = saved[n-1]
				saved = saved[:n-1]
			}
			o = append(o, "Q")
		case "cm":
			o = append(o, append(w.matrix(op.M), "cm")...)
		case "form":
			outer := w.font
			inner := s
			own := w.r.Intn(3) > 0
			if own {
				inner = w.scope()
			}
			toks := w.run(inner)
			w.font = outer
			dict, data := w.encode(w.join(toks))
			dict["Type"], dict["Subtype"], dict["BBox"] = pdfx.Name("XObject"), pdfx.Name("Form"), pdfx.Arr{-1000, -1000, 1000, 1000}
			m := pdfx.Arr{}
			id := true
			for i, x := range op.M {
				if i >= 4 {
					x *= w.unit
				}
				if x != []float64{1, 0, 0, 1, 0, 0}[i] {
					id = false
				}
				if x == math.Trunc(x) {
					m = append(m, int(x))
				} else {
					m = append(m, pdfx.Real(x))
				}
			}
			if !id || w.r.Intn(2) == 0 {
				dict["Matrix"] = w.indirect(m)
			}
			if own {
				dict["Resources"] = w.dict(inner)
			}
			n := w.xname(s, "Fm")
			s.xobj[n] = w.d.add(&pdfx.Stream{D: dict, Raw: data})
			o = append(o, w.name(n), "Do")
		case "endform":
			return o
		case "BT", "ET":
			in = op.Op == "BT"
			o = append(o, op.Op)
		case "fill", "stroke":
			o = append(o, w.color(op.V, op.Op == "stroke")...)
		case "Tf":
			w.font = s.fonts[op.F]
			o = append(o, w.name(w.font), w.num(op.V.(float64)), "Tf")
		case "Tc", "Tw", "TL", "Ts", "w":
			o = append(o, w.num(op.V.(float64)), op.Op)
		case "noise":
			o = append(o, w.noise(in)...)
		case "Td", "TD":
			o = append(o, w.num(op.X), w.num(op.Y), op.Op)
		case "Tm":
			o = append(o, append(w.matrix(op.M), "Tm")...)
		case "T*":
			o = append(o, "T*")
		case "Tj", "'":
			w.elFonts = append(w.elFonts, w.font)
			o = append(o, w.str(), op.Op)
		case "dq":
			w.elFonts = append(w.elFonts, w.font)
			o = append(o, w.num(op.Tw), w.num(op.Tc), w.str(), "\"")
		case "TJ":
			w.elFonts = append(w.elFonts, w.font)
			o = append(o, "[")
			for i := 0; i < op.N; i++ {
				for w.r.Intn(3) == 0 {
					o = append(o, w.plain(float64(w.r.Intn(800)-400)))
				}
				o = append(o, w.str())
			}
			if w.r.Intn(3) == 0 {
				o = append(o, "-120")
			}
			o = append(o, "]", "TJ")
		case "re":
			for _, x := range op.B {
				o = append(o, w.num(x))
			}
			o = append(o, "re", []string{"f", "S", "B", "f*", "B*", "F", "s", "b"}[w.r.Intn(8)])
		case "path":
			for _, g := range op.Segs {
				x, y := w.num(g.X), w.num(g.Y)
				switch k := g.K; k {
				case "c":
					switch w.r.Intn(3) {
					case 0:
						o = append(o, w.num(float64(w.r.Intn(9))), "7", "5", "6", x, y, "c")
					case 1:
						o = append(o, "4", "-3", x, y, "v")
					default:
						o = append(o, "4", "-3", x, y, "y")
					}
				case "h":
					o = append(o, "h")
				default:
					o = append(o, x, y, k)
				}
			}
			o = append(o, []string{"S", "s", "B", "b*"}[w.r.Intn(4)])
		case "Do":
			var n string
			for k, v := range s.xobj {
				if v == pdfx.Val(w.image) && w.r.Intn(2) == 0 && (n == "" || k < n) {
					n = k
				}
			}
			if n == "" {
				n = w.xname(s, "Im")
				s.xobj[n] = w.image
			}
			w.elImgs = append(w.elImgs, n)
			o = append(o, w.name(n), "Do")
		default:
			panic("harness: operator " + op.Op)
		}
	}
	return o
}

func (w *csWriter) xname(s *csScope, tag string) string {
	for i := 0; ; i++ {
		n := fmt.Sprintf("%s%d", tag, i)
		if i == 0 && w.r.Intn(4) == 0 {
			n = tag + "#(x)"
		}
		if !s.names[n] {
			s.names[n] = true
			return n
		}
	}
}

// join writes tokens with blanks where they are needed.
func (w *csWriter) join(toks []string) string {
	var b strings.Builder
	tight := w.r.Intn(3) == 0
	for i, tk := range toks {
		if i > 0 {
			last := toks[i-1]
			need := !pdfx.IsDelim(last[len(last)-1]) && !pdfx.IsDelim(tk[0])
			if strings.HasPrefix(tk, "BI") {
				need = true
			}
			if strings.HasPrefix(last, "BI") {
				b.WriteString("\n") // a reader finds EI by the white space around it
			}
			switch {
			case need || !tight:
				b.WriteString([]string{" ", " ", "\n", "\r\n", "\t", "  ", "\r", "\x00", "\f", " % (comment) Tj q\n", "%\r"}[w.r.Intn(11)])
			case w.r.Intn(10) == 0:
				b.WriteString("%x)]\n")
			}
		}
		b.WriteString(tk)
	}
	if w.r.Intn(2) == 0 {
		b.WriteString("\n")
	}
	return b.String()
}

func randChain(r *rand.Rand) []filterStep {
	var c []filterStep
	for r.Intn(2) == 0 && len(c) < 3 {
		s := filterStep{}
		switch r.Intn(5) {
		case 0:
			s.F, s.How = "ASCIIHexDecode", []string{"upper", "lower", "mixed", "spaced"}[r.Intn(4)]
		case 1:
			s.F, s.How = "ASCII85Decode", []string{"plain", "noz", "spaced"}[r.Intn(3)]
		case 2:
			s.F, s.How = "RunLengthDecode", []string{"greedy", "literal", "cut"}[r.Intn(3)]
		default:
			s.F, s.How = "FlateDecode", []string{"fast", "best", "blocks"}[r.Intn(3)]
			if r.Intn(3) == 0 {
				s.Pred.P, s.Pred.Colors, s.Pred.Bits, s.Pred.Cols = 10+r.Intn(6), 1, 8, 1+r.Intn(20)
			}
		}
		if s.Pred.Colors == 0 {
			s.Pred.Colors, s.Pred.Bits, s.Pred.Cols = 1, 8, 1
		}
		c = append(c, s)
	}
	return c
}

func (w *csWriter) encode(text string) (pdfx.Dict, []byte) {
	chain := randChain(w.r)
	b := []byte(text)
	for _, s := range chain {
		b = s.encode(b, w.r)
	}
	if len(chain) == 0 {
		return pdfx.Dict{}, b
	}
	return chainDict(chain, w.r), b
}

// contents cuts the tokens into content streams.
func (w *csWriter) contents(toks []string) pdfx.Val {
	k := w.r.Intn(4)
	arr := pdfx.Arr{}
	put := func(ts []string) {
		dict, data := w.encode(w.join(ts))
		arr = append(arr, w.d.add(&pdfx.Stream{D: dict, Raw: data}))
	}
	for k > 0 && len(toks) > 1 {
		n := w.r.Intn(len(toks))
		put(toks[:n])
		toks = toks[n:]
		k--
	}
	put(toks)
	if len(arr) == 1 && w.r.Intn(2) == 0 {
		return arr[0]
	}
	return w.indirect(arr)
}

func near(a, b float64) bool { return math.Abs(a-b) <= 1e-6*(1+math.Abs(a)+math.Abs(b)) }

func contentReplay(t *T) {
	var c struct {
		Log []csOp
		Out []csElem
	}
	t.JSON(&c)
	t.Steps = len(c.Log)
	r := t.R
	d := &genDoc{b: pdfx.NewBuilder("1.7", 300), num: map[int]int{}, objs: map[int]pdfx.Val{}, gens: map[int]int{}, version: "1.7", nums: newNumberer(r, 90)}
	w := &csWriter{r: r, d: d, unit: []float64{1, 1, .5, .25, 2}[r.Intn(5)], ops: c.Log, fontRef: map[int]pdfx.Val{}}
	var wantText, wantGraphics, wantImages []csElem
	for _, e := range c.Out {
		switch e.Kind {
		case "text":
			wantText = append(wantText, e)
			for i := 0; i < e.N; i++ {
				w.strFont = append(w.strFont, e.Font)
			}
		case "image":
			wantImages = append(wantImages, e)
		default:
			wantGraphics = append(wantGraphics, e)
		}
	}
	w.fonts = newFonts(r, func(data []byte) pdfx.Val {
		dict, b := w.encode(string(data))
		return d.add(&pdfx.Stream{D: dict, Raw: b})
	})
	for f := 1; f <= 3; f++ {
		fd := pdfx.Dict{}
		for k, v := range w.fonts[f].dict {
			if k == "Encoding" || k == "DescendantFonts" {
				v = w.indirect(v)
			}
			fd[k] = v
		}
		w.fontRef[f] = w.indirect(fd)
	}
	w.image = d.add(&pdfx.Stream{D: pdfx.Dict{"Type": pdfx.Name("XObject"), "Subtype": pdfx.Name("Image"), "Width": 2, "Height": 1, "ColorSpace": pdfx.Name("DeviceGray"), "BitsPerComponent": 8}, Raw: []byte("q\xff")})
	page := w.scope()
	toks := w.run(page)

	// the page, among others
	root := d.reserve(r)
	at := r.Intn(3)
	n := at + 1 + r.Intn(2)
	kids := pdfx.Arr{}
	res := w.dict(page)
	inherit := r.Intn(3) == 0
	for i := 0; i < n; i++ {
		p := pdfx.Dict{"Type": pdfx.Name("Page"), "Parent": root, "MediaBox": pdfx.Arr{0, 0, 612, 792}}
		if i == at {
			p["Contents"] = w.contents(toks)
			if !inherit {
				p["Resources"] = res
			}
		} else {
			p["Contents"] = d.add(&pdfx.Stream{D: pdfx.Dict{}, Raw: []byte(fmt.Sprintf("BT /F0 9 Tf 1 2 Td (other %d) Tj ET", i))})
			p["Resources"] = pdfx.Dict{}
		}
		kids = append(kids, d.add(p))
	}
	pages := pdfx.Dict{"Type": pdfx.Name("Pages"), "Kids": kids, "Count": n}
	if inherit {
		pages["Resources"] = res
	}
	d.set(root.N, pages)
	d.root = d.add(pdfx.Dict{"Type": pdfx.Name("Catalog"), "Pages": root})
	src := d.serialise(r)
	if _, err := pdfx.ReadFile(src); err != nil {
		panic("harness: " + err.Error())
	}

	t.Do("extract", src, func() {
		doc, err := extract.ExtractContent(src, nil, false)
		if err != nil {
			t.FailBlob("extract", src, "%v", err)
			return
		}
		if len(doc.Pages) != n {
			t.FailBlob("pages", src, "%d pages, want %d", len(doc.Pages), n)
			return
		}
		for i, p := range doc.Pages {
			if i != at && (len(p.Text) != 1 || p.Text[0].Text != fmt.Sprintf("other %d", i) || len(p.Images)+len(p.Graphics) > 0) {
				t.FailBlob("other", src, "page %d: %+v", i+1, p)
			}
		}
		w.compare(t, src, &doc.Pages[at], wantText, wantGraphics, wantImages)
	})
}

func (w *csWriter) compare(t *T, src []byte, p *types.Page, text, graphics, images []csElem) {
	u := w.unit
	t.Count("texts", len(text))
	t.Count("graphics", len(graphics))
	t.Count("images", len(images))
	if len(p.Text) != len(text) {
		t.FailBlob("texts", src, "%d text elements, want %d", len(p.Text), len(text))
		return
	}
	for i, e := range text {
		g := p.Text[i]
		want := ""
		for k := 0; k < e.N; k++ {
			want += w.strs[e.First-1+k]
		}
		if g.Text != want {
			t.FailBlob("text", src, "text element %d is %q, want %q (font %d)", i, g.Text, want, e.Font)
		}
		if w.elFonts[i] != "" && strings.TrimPrefix(g.FontName, "/") != w.elFonts[i] {
			t.FailBlob("font", src, "text element %d has font %q, want %q", i, g.FontName, w.elFonts[i])
		}
		wm := append([]float64(nil), e.Tm...)
		wm[4] *= u
		wm[5] *= u
		for _, x := range []struct {
			what      string
			got, want float64
		}{{"x", g.X, e.At[0] * u}, {"y", g.Y, e.At[1] * u}, {"size", g.FontSize, e.Size * u}, {"height", g.Height, e.Size * u},
			{"character spacing", g.CharSpacing, e.Tc * u}, {"word spacing", g.WordSpacing, e.Tw * u}, {"rise", g.TextRise, e.Ts * u},
			{"a", g.TextMatrix[0], wm[0]}, {"b", g.TextMatrix[1], wm[1]}, {"c", g.TextMatrix[2], wm[2]}, {"d", g.TextMatrix[3], wm[3]}, {"e", g.TextMatrix[4], wm[4]}, {"f", g.TextMatrix[5], wm[5]}} {
			if !near(x.got, x.want) {
				t.FailBlob("text "+x.what, src, "text element %d (%q): %s is %g, want %g", i, want, x.what, x.got, x.want)
			}
		}
	}
	if len(p.Graphics) != len(graphics) {
		t.FailBlob("graphics", src, "%d graphics, want %d", len(p.Graphics), len(graphics))
		return
	}
	for i, e := range graphics {
		g := p.Graphics[i]
		typ := types.GraphicTypeRectangle
		if e.Kind == "line" {
			typ = types.GraphicTypeLine
		}
		if g.Type != typ {
			t.FailBlob("graphic", src, "graphic %d is a %s, want a %s", i, g.Type, typ)
			continue
		}
		if !near(g.LineWidth, e.Lw*u) && !(e.Lw == 1 && near(g.LineWidth, 1)) {
			t.FailBlob("line width", src, "graphic %d: line width %g, want %g", i, g.LineWidth, e.Lw*u)
		}
		checkColor(t, src, i, "stroke", g.StrokeColor, e.Stroke)
		if e.Kind == "line" {
			b := g.BoundingBox
			if b == nil || !near(b.LowerX, math.Min(e.A[0], e.B[0])*u) || !near(b.LowerY, math.Min(e.A[1], e.B[1])*u) ||
				!near(b.UpperX, math.Max(e.A[0], e.B[0])*u) || !near(b.UpperY, math.Max(e.A[1], e.B[1])*u) {
				t.FailBlob("box", src, "line %d: box %+v, want from %v to %v by %g", i, b, e.A, e.B, u)
			}
		}
		if e.Kind == "rect" {
			checkColor(t, src, i, "fill", g.FillColor, e.Fill)
			b := g.BoundingBox
			if b == nil || !near(b.LowerX, e.Box[0]*u) || !near(b.LowerY, e.Box[1]*u) || !near(b.UpperX, e.Box[2]*u) || !near(b.UpperY, e.Box[3]*u) {
				t.FailBlob("box", src, "graphic %d: box %+v, want %v by %g", i, b, e.Box, u)
			}
		}
	}
	if len(p.Images) != len(images) {
		t.FailBlob("images", src, "%d images, want %d", len(p.Images), len(images))
		return
	}
	for i, e := range images {
		g := p.Images[i]
		if strings.TrimPrefix(g.ImageID, "/") != w.elImgs[i] {
			t.FailBlob("image", src, "image %d is %q, want %q", i, g.ImageID, w.elImgs[i])
		}
		for k, x := range e.M {
			if k >= 4 {
				x *= u
			}
			if !near(g.Transform[k], x) {
				t.FailBlob("image matrix", src, "image %d: matrix %v, want %v by %g", i, g.Transform, e.M, u)
				break
			}
		}
		if !near(g.X, e.M[4]*u) || !near(g.Y, e.M[5]*u) {
			t.FailBlob("image place", src, "image %d at %g, %g, want %v by %g", i, g.X, g.Y, e.M[4:], u)
		}
		if e.M[1] == 0 && e.M[2] == 0 && (!near(g.Width, math.Abs(e.M[0])) || !near(g.Height, math.Abs(e.M[3]))) {
			t.FailBlob("image size", src, "image %d is %g by %g, want %v", i, g.Width, g.Height, e.M)
		}
	}
}

func checkColor(t *T, src []byte, i int, what string, got *types.Color, want []interface{}) {
	var v [4]float64
	for k, x := range want[1:] {
		v[k] = x.(float64) / 4
	}
	ok := got != nil
	if ok {
		switch want[0] {
		case "rgb":
			ok = got.Space != types.ColorSpaceGray && got.Space != types.ColorSpaceCMYK && near(got.R, v[0]) && near(got.G, v[1]) && near(got.B, v[2])
		case "gray":
			// black may be reported in any space
			ok = got.Space == types.ColorSpaceGray && near(got.R, v[0])
		case "cmyk":
			ok = got.Space == types.ColorSpaceCMYK && near(got.C, v[0]) && near(got.M, v[1]) && near(got.Y, v[2]) && near(got.K, v[3])
		}
	}
	if !ok {
		t.FailBlob(what, src, "graphic %d: %s colour %+v, want %v", i, what, got, want)
	}
}
