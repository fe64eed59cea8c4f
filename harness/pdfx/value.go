// Package pdfx is the harness's own, independent reading of ISO 32000: a value
// model, a strict lexer/parser, a strict file reader and a file builder. It
// shares no code with the system under test and serves as its oracle.
package pdfx

import (
	"bytes"
	"fmt"
	"sort"
	"strconv"
	"strings"
)

type Val interface{}

type (
	Null struct{}
	Name string
	Str  []byte
	Arr  []Val
	Dict map[string]Val
	Ref  struct{ N, G int }
	Real float64
	Raw  []byte // syntax to be written as it is
	// Stream holds the raw (still encoded) stream bytes.
	Stream struct {
		D   Dict
		Raw []byte
	}
)

// Canon renders a value canonically: two values are equal iff their canonical
// strings are.
func Canon(v Val) string {
	var b strings.Builder
	canon(&b, v)
	return b.String()
}

func canon(b *strings.Builder, v Val) {
	switch x := v.(type) {
	case nil, Null:
		b.WriteString("null")
	case bool:
		fmt.Fprintf(b, "%v", x)
	case int:
		fmt.Fprintf(b, "%d", x)
	case Real:
		f := float64(x)
		if f == float64(int64(f)) {
			fmt.Fprintf(b, "%d", int64(f))
		} else {
			b.WriteString(strconv.FormatFloat(f, 'g', 9, 64))
		}
	case Name:
		fmt.Fprintf(b, "/%q", string(x))
	case Str:
		fmt.Fprintf(b, "s%x", []byte(x))
	case Ref:
		fmt.Fprintf(b, "R%d.%d", x.N, x.G)
	case Arr:
		b.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				b.WriteByte(' ')
			}
			canon(b, e)
		}
		b.WriteByte(']')
	case Dict:
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		b.WriteString("<<")
		for _, k := range ks {
			if _, ok := x[k].(Null); ok {
				continue // a null entry is the same as an absent one
			}
			fmt.Fprintf(b, "%q:", k)
			canon(b, x[k])
			b.WriteByte(' ')
		}
		b.WriteString(">>")
	case *Stream:
		canon(b, x.D)
		fmt.Fprintf(b, "stream(%d)%x", len(x.Raw), x.Raw)
	default:
		fmt.Fprintf(b, "?%T", v)
	}
}

// Write renders a value in PDF syntax (plain style).
func Write(v Val) []byte {
	var b bytes.Buffer
	WriteTo(&b, v)
	return b.Bytes()
}

func WriteName(b *bytes.Buffer, n string) {
	b.WriteByte('/')
	for i := 0; i < len(n); i++ {
		c := n[i]
		if c <= ' ' || c >= 127 || strings.IndexByte("()<>[]{}/%#", c) >= 0 {
			fmt.Fprintf(b, "#%02X", c)
		} else {
			b.WriteByte(c)
		}
	}
}

func WriteStr(b *bytes.Buffer, s []byte) {
	b.WriteByte('(')
	for _, c := range s {
		switch {
		case c == '(' || c == ')' || c == '\\':
			b.WriteByte('\\')
			b.WriteByte(c)
		case c == '\n':
			b.WriteString("\\n")
		case c == '\r':
			b.WriteString("\\r")
		case c < 32 || c >= 127:
			fmt.Fprintf(b, "\\%03o", c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte(')')
}

func WriteTo(b *bytes.Buffer, v Val) {
	switch x := v.(type) {
	case nil, Null:
		b.WriteString("null")
	case bool:
		fmt.Fprintf(b, "%v", x)
	case int:
		fmt.Fprintf(b, "%d", x)
	case Real:
		b.WriteString(strconv.FormatFloat(float64(x), 'f', -1, 64))
	case Name:
		WriteName(b, string(x))
	case Str:
		WriteStr(b, x)
	case Raw:
		b.Write(x)
	case Ref:
		fmt.Fprintf(b, "%d %d R", x.N, x.G)
	case Arr:
		b.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				b.WriteByte(' ')
			}
			WriteTo(b, e)
		}
		b.WriteByte(']')
	case Dict:
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		b.WriteString("<<")
		for _, k := range ks {
			WriteName(b, k)
			b.WriteByte(' ')
			WriteTo(b, x[k])
			b.WriteByte(' ')
		}
		b.WriteString(">>")
	case *Stream:
		WriteTo(b, x.D)
		b.WriteString("\nstream\n")
		b.Write(x.Raw)
		b.WriteString("\nendstream")
	default:
		panic(fmt.Sprintf("pdfx: cannot write %T", v))
	}
}

// ---------------------------------------------------------------- parsing

type Lex struct {
	B []byte
	P int
	// Resolve, if set, resolves an indirect /Length.
	Resolve func(Ref) (int, bool)
}

type perr string

func (e perr) Error() string { return string(e) }

func (l *Lex) fail(f string, a ...interface{}) {
	panic(perr(fmt.Sprintf("at %d: ", l.P) + fmt.Sprintf(f, a...)))
}

func IsWS(c byte) bool {
	return c == 0 || c == 9 || c == 10 || c == 12 || c == 13 || c == 32
}
func IsDelim(c byte) bool { return strings.IndexByte("()<>[]{}/%", c) >= 0 }

func (l *Lex) Skip() {
	for l.P < len(l.B) {
		c := l.B[l.P]
		if IsWS(c) {
			l.P++
		} else if c == '%' {
			for l.P < len(l.B) && l.B[l.P] != '\n' && l.B[l.P] != '\r' {
				l.P++
			}
		} else {
			return
		}
	}
}

func (l *Lex) word() string {
	s := l.P
	for l.P < len(l.B) && !IsWS(l.B[l.P]) && !IsDelim(l.B[l.P]) {
		l.P++
	}
	return string(l.B[s:l.P])
}

// Value parses one value (no streams).
func (l *Lex) Value() Val {
	l.Skip()
	if l.P >= len(l.B) {
		l.fail("unexpected end")
	}
	c := l.B[l.P]
	switch {
	case c == '/':
		l.P++
		var b []byte
		for l.P < len(l.B) && !IsWS(l.B[l.P]) && !IsDelim(l.B[l.P]) {
			if l.B[l.P] == '#' && l.P+2 < len(l.B)+0 {
				if n, err := strconv.ParseUint(string(l.B[l.P+1:min(l.P+3, len(l.B))]), 16, 8); err == nil {
					b = append(b, byte(n))
					l.P += 3
					continue
				}
			}
			b = append(b, l.B[l.P])
			l.P++
		}
		return Name(b)
	case c == '(':
		return l.litString()
	case c == '<' && l.P+1 < len(l.B) && l.B[l.P+1] == '<':
		l.P += 2
		d := Dict{}
		for {
			l.Skip()
			if l.P+1 < len(l.B) && l.B[l.P] == '>' && l.B[l.P+1] == '>' {
				l.P += 2
				return d
			}
			k, ok := l.Value().(Name)
			if !ok {
				l.fail("dictionary key is not a name")
			}
			if _, dup := d[string(k)]; dup {
				l.fail("duplicate dictionary key %q", string(k))
			}
			d[string(k)] = l.Value()
		}
	case c == '<':
		l.P++
		var b []byte
		nib, have := byte(0), false
		for {
			if l.P >= len(l.B) {
				l.fail("unterminated hex string")
			}
			c := l.B[l.P]
			l.P++
			if c == '>' {
				break
			}
			if IsWS(c) {
				continue
			}
			n, err := strconv.ParseUint(string(c), 16, 8)
			if err != nil {
				l.fail("bad hex digit %q", c)
			}
			if have {
				b = append(b, nib<<4|byte(n))
				have = false
			} else {
				nib, have = byte(n), true
			}
		}
		if have {
			b = append(b, nib<<4)
		}
		return Str(b)
	case c == '[':
		l.P++
		a := Arr{}
		for {
			l.Skip()
			if l.P < len(l.B) && l.B[l.P] == ']' {
				l.P++
				return a
			}
			a = append(a, l.Value())
		}
	case c == '+' || c == '-' || c == '.' || (c >= '0' && c <= '9'):
		w := l.word()
		n, err := strconv.Atoi(w)
		if err != nil {
			if strings.ContainsAny(w, "eExXpPiInN_") {
				l.fail("bad number %q", w)
			}
			f, err := strconv.ParseFloat(w, 64)
			if err != nil {
				l.fail("bad number %q", w)
			}
			return Real(f)
		}
		if c >= '0' && c <= '9' { // maybe a reference
			save := l.P
			l.Skip()
			if l.P < len(l.B) && l.B[l.P] >= '0' && l.B[l.P] <= '9' {
				g, err := strconv.Atoi(l.word())
				if err == nil {
					l.Skip()
					if l.P < len(l.B) && l.B[l.P] == 'R' && (l.P+1 == len(l.B) || IsWS(l.B[l.P+1]) || IsDelim(l.B[l.P+1])) {
						l.P++
						return Ref{n, g}
					}
				}
			}
			l.P = save
		}
		return n
	default:
		w := l.word()
		switch w {
		case "true":
			return true
		case "false":
			return false
		case "null":
			return Null{}
		}
		l.fail("unexpected token %q (byte %q)", w, c)
	}
	return nil
}

func (l *Lex) litString() Val {
	l.P++
	depth := 1
	b := []byte{}
	for {
		if l.P >= len(l.B) {
			l.fail("unterminated string")
		}
		c := l.B[l.P]
		l.P++
		switch c {
		case '(':
			depth++
		case ')':
			depth--
			if depth == 0 {
				return Str(b)
			}
		case '\r':
			if l.P < len(l.B) && l.B[l.P] == '\n' {
				l.P++
			}
			c = '\n'
		case '\\':
			if l.P >= len(l.B) {
				l.fail("unterminated string")
			}
			e := l.B[l.P]
			l.P++
			switch {
			case e == 'n':
				c = '\n'
			case e == 'r':
				c = '\r'
			case e == 't':
				c = '\t'
			case e == 'b':
				c = '\b'
			case e == 'f':
				c = '\f'
			case e == '\n':
				continue
			case e == '\r':
				if l.P < len(l.B) && l.B[l.P] == '\n' {
					l.P++
				}
				continue
			case e >= '0' && e <= '7':
				n := int(e - '0')
				for i := 0; i < 2 && l.P < len(l.B) && l.B[l.P] >= '0' && l.B[l.P] <= '7'; i++ {
					n = n*8 + int(l.B[l.P]-'0')
					l.P++
				}
				c = byte(n)
			default:
				c = e
			}
		}
		b = append(b, c)
	}
}

func (l *Lex) try(w string) bool {
	l.Skip()
	if bytes.HasPrefix(l.B[l.P:], []byte(w)) {
		l.P += len(w)
		return true
	}
	return false
}

// Object parses a body that may be a stream.
func (l *Lex) Object() Val {
	v := l.Value()
	d, ok := v.(Dict)
	if !ok {
		return v
	}
	save := l.P
	if !l.try("stream") {
		l.P = save
		return v
	}
	if l.P < len(l.B) && l.B[l.P] == '\r' {
		l.P++
		if l.P >= len(l.B) || l.B[l.P] != '\n' {
			l.fail("CR alone after stream keyword")
		}
	}
	if l.P >= len(l.B) || l.B[l.P] != '\n' {
		l.fail("no EOL after stream keyword")
	}
	l.P++
	n := -1
	switch x := d["Length"].(type) {
	case int:
		n = x
	case Ref:
		if l.Resolve != nil {
			if k, ok := l.Resolve(x); ok {
				n = k
			}
		}
	}
	if n < 0 || l.P+n > len(l.B) {
		l.fail("bad stream /Length %v", d["Length"])
	}
	raw := l.B[l.P : l.P+n]
	l.P += n
	if !l.try("endstream") {
		l.fail("no endstream where /Length %d says", n)
	}
	return &Stream{D: d, Raw: append([]byte(nil), raw...)}
}

// Parse parses exactly one value or stream, with nothing but whitespace after.
func Parse(b []byte) (v Val, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(perr); ok {
				v, err = nil, e
				return
			}
			panic(r)
		}
	}()
	l := &Lex{B: b}
	v = l.Object()
	l.Skip()
	if l.P != len(b) {
		return nil, fmt.Errorf("trailing bytes after value: %.40q", b[l.P:])
	}
	return v, nil
}

// ParseIndirect accepts either a bare body or "N G obj body endobj".
func ParseIndirect(b []byte) (v Val, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(perr); ok {
				v, err = nil, e
				return
			}
			panic(r)
		}
	}()
	l := &Lex{B: b}
	if n, ok := l.header(); ok {
		_ = n
		v = l.Object()
		if !l.try("endobj") {
			l.fail("no endobj")
		}
		l.Skip()
		if l.P != len(b) {
			l.fail("trailing bytes after endobj: %.40q", b[l.P:])
		}
		return v, nil
	}
	return Parse(b)
}

// header consumes "N G obj" if present.
func (l *Lex) header() (r Ref, ok bool) {
	save := l.P
	l.Skip()
	w1 := l.word()
	n, e1 := strconv.Atoi(w1)
	l.Skip()
	w2 := l.word()
	g, e2 := strconv.Atoi(w2)
	l.Skip()
	if e1 == nil && e2 == nil && l.word() == "obj" {
		return Ref{n, g}, true
	}
	l.P = save
	return Ref{}, false
}

// ParseIndirectWith is ParseIndirect with a caller-supplied lexer (for its Resolve).
func ParseIndirectWith(b []byte, l *Lex) (v Val, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(perr); ok {
				v, err = nil, e
				return
			}
			panic(r)
		}
	}()
	l.B, l.P = b, 0
	_, hdr := l.header()
	v = l.Object()
	if hdr && !l.try("endobj") {
		l.fail("no endobj")
	}
	l.Skip()
	if l.P != len(b) {
		l.fail("trailing bytes")
	}
	return v, nil
}
