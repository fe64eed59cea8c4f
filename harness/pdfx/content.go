package pdfx

import (
	"fmt"
	"strings"
)

// Op is an operator of a content stream with its operands.
type Op struct {
	Op   string
	Args []Val
}

// signatures: n number, i integer, s string, a array, / name, d name or dictionary.
var signatures = map[string]string{
	"q": "", "Q": "", "cm": "nnnnnn", "w": "n", "J": "i", "j": "i", "M": "n", "d": "an", "ri": "/", "i": "n", "gs": "/",
	"m": "nn", "l": "nn", "c": "nnnnnn", "v": "nnnn", "y": "nnnn", "h": "", "re": "nnnn",
	"S": "", "s": "", "f": "", "F": "", "f*": "", "B": "", "B*": "", "b": "", "b*": "", "n": "", "W": "", "W*": "",
	"BT": "", "ET": "", "Tc": "n", "Tw": "n", "Tz": "n", "TL": "n", "Tf": "/n", "Tr": "i", "Ts": "n",
	"Td": "nn", "TD": "nn", "Tm": "nnnnnn", "T*": "", "Tj": "s", "TJ": "a", "'": "s", "\"": "nns",
	"CS": "/", "cs": "/", "G": "n", "g": "n", "RG": "nnn", "rg": "nnn", "K": "nnnn", "k": "nnnn", "sh": "/", "Do": "/",
	"MP": "/", "DP": "/d", "BMC": "/", "BDC": "/d", "EMC": "", "BX": "", "EX": "", "d0": "nn", "d1": "nnnnnn",
}

// Num is the number a value is.
func Num(v Val) (float64, bool) {
	switch x := v.(type) {
	case int:
		return float64(x), true
	case Real:
		return float64(x), true
	}
	return 0, false
}

// Operators reads a content stream, strictly: known operators with the
// operands they take. Inline images and variadic colours are not accepted.
func Operators(b []byte) (ops []Op, err error) {
	defer guard(&err)
	l := &Lex{B: b}
	var args []Val
	for {
		l.Skip()
		if l.P >= len(b) {
			break
		}
		c := b[l.P]
		if strings.IndexByte("/(<[+-.0123456789", c) >= 0 {
			args = append(args, l.Value())
			continue
		}
		start := l.P
		w := l.word()
		if w == "" {
			l.fail("unexpected %q", c)
		}
		sig, ok := signatures[w]
		if !ok {
			l.P = start
			l.fail("unknown operator %q", w)
		}
		if len(sig) != len(args) {
			l.fail("%s with %d operands", w, len(args))
		}
		for i, a := range args {
			ok := false
			switch sig[i] {
			case 'n':
				_, ok = Num(a)
			case 'i':
				_, ok = a.(int)
			case 's':
				_, ok = a.(Str)
			case 'a':
				_, ok = a.(Arr)
			case '/':
				_, ok = a.(Name)
			case 'd':
				_, ok = a.(Name)
				if !ok {
					_, ok = a.(Dict)
				}
			}
			if !ok {
				l.fail("operand %d of %s is %s", i, w, Canon(a))
			}
		}
		ops = append(ops, Op{w, args})
		args = nil
	}
	if len(args) > 0 {
		return nil, fmt.Errorf("operands without operator at the end")
	}
	return ops, nil
}

// Balanced checks that operators come where ISO 32000-1 figure 9 allows them
// and that q/Q and BT/ET pair.
func Balanced(ops []Op) error {
	depth, mode := 0, "page"
	for i, o := range ops {
		bad := func() error { return fmt.Errorf("operator %d, %s, in a %s", i, o.Op, mode) }
		switch o.Op {
		case "q", "cm", "Do", "sh", "d0", "d1":
			if mode != "page" {
				return bad()
			}
			if o.Op == "q" {
				depth++
			}
		case "Q":
			if mode != "page" || depth == 0 {
				return bad()
			}
			depth--
		case "BT":
			if mode != "page" {
				return bad()
			}
			mode = "text object"
		case "ET":
			if mode != "text object" {
				return bad()
			}
			mode = "page"
		case "Td", "TD", "Tm", "T*", "Tj", "TJ", "'", "\"":
			if mode != "text object" {
				return bad()
			}
		case "m", "re":
			if mode == "text object" {
				return bad()
			}
			mode = "path"
		case "l", "c", "v", "y", "h":
			if mode != "path" {
				return bad()
			}
		case "W", "W*":
			if mode != "path" {
				return bad()
			}
		case "S", "s", "f", "F", "f*", "B", "B*", "b", "b*", "n":
			if mode != "path" {
				return bad()
			}
			mode = "page"
		default:
			if mode == "path" {
				return bad()
			}
		}
	}
	if depth != 0 || mode != "page" {
		return fmt.Errorf("the content ends in a %s, %d states saved", mode, depth)
	}
	return nil
}

// winHigh holds the characters of WinAnsiEncoding that differ from Latin-1 (Annex D.2).
var winHigh = map[byte]rune{
	0x80: '€', 0x82: '‚', 0x83: 'ƒ', 0x84: '„', 0x85: '…', 0x86: '†', 0x87: '‡', 0x88: 'ˆ', 0x89: '‰', 0x8a: 'Š', 0x8b: '‹', 0x8c: 'Œ',
	0x8e: 'Ž', 0x91: '‘', 0x92: '’', 0x93: '“', 0x94: '”', 0x95: '•', 0x96: '–', 0x97: '—', 0x98: '˜', 0x99: '™', 0x9a: 'š', 0x9b: '›', 0x9c: 'œ', 0x9e: 'ž', 0x9f: 'Ÿ',
}

// WinAnsi decodes text shown in a font with WinAnsiEncoding.
func WinAnsi(b []byte) string {
	var o []rune
	for _, c := range b {
		if u, ok := winHigh[c]; ok {
			o = append(o, u)
		} else {
			o = append(o, rune(c))
		}
	}
	return string(o)
}
