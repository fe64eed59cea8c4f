package pdfx

import "unicode/utf16"

// Text strings (ISO 32000-1 7.9.2): PDFDocEncoding, UTF-16BE or UTF-8 (PDF 2.0).

// docHigh holds the characters of PDFDocEncoding (Annex D.2) that differ from Latin-1.
var docHigh = map[byte]rune{
	0x18: '˘', 0x19: 'ˇ', 0x1a: 'ˆ', 0x1b: '˙', 0x1c: '˝', 0x1d: '˛', 0x1e: '˚', 0x1f: '˜',
	0x80: '•', 0x81: '†', 0x82: '‡', 0x83: '…', 0x84: '—', 0x85: '–', 0x86: 'ƒ', 0x87: '⁄',
	0x88: '‹', 0x89: '›', 0x8a: '−', 0x8b: '‰', 0x8c: '„', 0x8d: '“', 0x8e: '”', 0x8f: '‘',
	0x90: '’', 0x91: '‚', 0x92: '™', 0x93: 'ﬁ', 0x94: 'ﬂ', 0x95: 'Ł', 0x96: 'Œ', 0x97: 'Š',
	0x98: 'Ÿ', 0x99: 'Ž', 0x9a: 'ı', 0x9b: 'ł', 0x9c: 'œ', 0x9d: 'š', 0x9e: 'ž', 0xa0: '€',
}

var docCode = func() map[rune]byte {
	m := map[rune]byte{}
	for c := 0x20; c < 0x100; c++ {
		if c != 0x7f && c != 0x9f && c != 0xad && docHigh[byte(c)] == 0 {
			m[rune(c)] = byte(c)
		}
	}
	for _, c := range "\t\n\r" {
		m[c] = byte(c)
	}
	for c, u := range docHigh {
		m[u] = c
	}
	return m
}()

// DocEncode encodes s in PDFDocEncoding, if it can be.
func DocEncode(s string) ([]byte, bool) {
	var o []byte
	for _, c := range s {
		b, ok := docCode[c]
		if !ok {
			return nil, false
		}
		o = append(o, b)
	}
	if len(o) > 1 && (o[0] == 0xfe && o[1] == 0xff || o[0] == 0xff && o[1] == 0xfe || len(o) > 2 && string(o[:3]) == "\xef\xbb\xbf") {
		return nil, false // looks like a byte order mark
	}
	return o, true
}

// UTF16 encodes s with a byte order mark.
func UTF16(s string) []byte {
	o := []byte{0xfe, 0xff}
	for _, u := range utf16.Encode([]rune(s)) {
		o = append(o, byte(u>>8), byte(u))
	}
	return o
}

// TextOf decodes a text string.
func TextOf(v Val) (string, bool) {
	s, ok := v.(Str)
	if !ok {
		return "", false
	}
	if len(s) >= 2 && s[0] == 0xfe && s[1] == 0xff {
		if len(s)%2 != 0 {
			return "", false
		}
		var u []uint16
		for i := 2; i < len(s); i += 2 {
			u = append(u, uint16(s[i])<<8|uint16(s[i+1]))
		}
		return string(utf16.Decode(u)), true
	}
	if len(s) >= 3 && string(s[:3]) == "\xef\xbb\xbf" {
		return string(s[3:]), true
	}
	var o []rune
	for _, c := range []byte(s) {
		u, ok := docHigh[c]
		switch {
		case ok:
		case c < 0x20 && c != '\t' && c != '\n' && c != '\r' || c == 0x7f || c == 0x9f || c == 0xad:
			return "", false // undefined
		default:
			u = rune(c)
		}
		o = append(o, u)
	}
	return string(o), true
}
