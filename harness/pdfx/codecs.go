package pdfx

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"math/rand"
	"strings"
)

// Encoders and decoders for the filters, with every liberty ISO 32000-1 7.4
// leaves to an encoder. They share no code with the library.

func wsRun(r *rand.Rand) string {
	const w = "\x00\t\n\f\r "
	s := ""
	for i := 0; i < 1+r.Intn(2); i++ {
		s += string(w[r.Intn(len(w))])
	}
	return s
}

// HexEnc encodes with the named choice.
func HexEnc(b []byte, how string, r *rand.Rand) []byte {
	var o bytes.Buffer
	for i, c := range b {
		d := fmt.Sprintf("%02X", c)
		switch {
		case how == "lower", how == "mixed" && r.Intn(2) == 0:
			d = strings.ToLower(d)
		}
		if how == "odd" && i == len(b)-1 && d[1] == '0' {
			d = d[:1]
		}
		for _, x := range []byte(d) {
			if how == "spaced" && r.Intn(3) == 0 {
				o.WriteString(wsRun(r))
			}
			o.WriteByte(x)
		}
		if i%40 == 39 && how == "upper" {
			o.WriteByte('\n')
		}
	}
	if how == "spaced" {
		o.WriteString(wsRun(r))
	}
	if how != "noeod" {
		o.WriteByte('>')
	}
	if how == "trail" {
		o.WriteString("\r\n4")
	}
	return o.Bytes()
}

// A85Enc encodes with the named choice.
func A85Enc(b []byte, how string, r *rand.Rand) []byte {
	var o bytes.Buffer
	put := func(s []byte) {
		for _, x := range s {
			if how == "spaced" && r.Intn(4) == 0 {
				o.WriteString(wsRun(r))
			}
			o.WriteByte(x)
		}
	}
	for i := 0; i < len(b); i += 4 {
		var q [4]byte
		n := copy(q[:], b[i:])
		v := uint64(q[0])<<24 | uint64(q[1])<<16 | uint64(q[2])<<8 | uint64(q[3])
		if v == 0 && n == 4 && how != "noz" && (how != "spaced" || r.Intn(2) == 0) {
			put([]byte{'z'})
			continue
		}
		var d [5]byte
		for j := 4; j >= 0; j-- {
			d[j] = byte(v%85) + 33
			v /= 85
		}
		put(d[:n+1])
	}
	if how == "spaced" {
		o.WriteString(wsRun(r))
	}
	if how != "noeod" {
		o.WriteString("~>")
	}
	if how == "trail" {
		o.WriteString("\n!x")
	}
	return o.Bytes()
}

// A85Dec decodes strictly; a leading <~ is accepted.
func A85Dec(b []byte) ([]byte, error) {
	b = bytes.TrimPrefix(b, []byte("<~"))
	var o []byte
	var g []uint64
	flush := func(n int) error {
		var v uint64
		for _, d := range g {
			v = v*85 + d
		}
		if v > 0xffffffff {
			return fmt.Errorf("group too large")
		}
		q := []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
		o = append(o, q[:n]...)
		g = nil
		return nil
	}
	for i := 0; i < len(b); i++ {
		c := b[i]
		switch {
		case IsWS(c):
		case c == '~':
			if i+1 >= len(b) || b[i+1] != '>' {
				return nil, fmt.Errorf("~ without >")
			}
			i = len(b)
		case c == 'z' && len(g) == 0:
			o = append(o, 0, 0, 0, 0)
		case c >= '!' && c <= 'u':
			if g = append(g, uint64(c-'!')); len(g) == 5 {
				if err := flush(4); err != nil {
					return nil, err
				}
			}
		default:
			return nil, fmt.Errorf("bad character %q", c)
		}
	}
	if len(g) == 1 {
		return nil, fmt.Errorf("one digit left")
	}
	if n := len(g); n > 0 {
		for len(g) < 5 {
			g = append(g, 84)
		}
		// padded up, so that cutting gives the bytes encoded
		if err := flush(n - 1); err != nil {
			return nil, err
		}
	}
	return o, nil
}

// RLEnc encodes with the named choice.
func RLEnc(b []byte, how string, r *rand.Rand) []byte {
	var o []byte
	for i := 0; i < len(b); {
		run := 1
		for i+run < len(b) && run < 128 && b[i+run] == b[i] {
			run++
		}
		if how == "cut" {
			run = 1 + r.Intn(run)
		}
		if run >= 2 && how != "literal" {
			o = append(o, byte(257-run), b[i])
			i += run
			continue
		}
		n := 1
		switch how {
		case "literal":
			n = min(128, len(b)-i)
		case "cut":
			n = min(1+r.Intn(128), len(b)-i)
		default:
			for i+n < len(b) && n < 128 && (i+n+1 >= len(b) || b[i+n] != b[i+n+1]) {
				n++
			}
		}
		o = append(o, byte(n-1))
		o = append(o, b[i:i+n]...)
		i += n
	}
	if how != "noeod" {
		o = append(o, 128)
	}
	if how == "trail" {
		o = append(o, 0, 'x', '\n')
	}
	return o
}

// RLDec decodes strictly.
func RLDec(b []byte) ([]byte, error) {
	var o []byte
	for i := 0; i < len(b); {
		n := int(b[i])
		i++
		switch {
		case n == 128:
			return o, nil
		case n < 128:
			if i+n+1 > len(b) {
				return nil, fmt.Errorf("literal run cut")
			}
			o = append(o, b[i:i+n+1]...)
			i += n + 1
		default:
			if i >= len(b) {
				return nil, fmt.Errorf("repeat cut")
			}
			o = append(o, bytes.Repeat(b[i:i+1], 257-n)...)
			i++
		}
	}
	return o, nil
}

// FlateEnc encodes with the named choice.
func FlateEnc(b []byte, how string, r *rand.Rand) []byte {
	lvl := map[string]int{"stored": zlib.NoCompression, "fast": zlib.BestSpeed, "best": zlib.BestCompression,
		"huffman": zlib.HuffmanOnly, "blocks": zlib.DefaultCompression}[how]
	return deflate(lvl, func(w *zlib.Writer) {
		if how == "blocks" {
			for len(b) > 0 {
				n := 1 + r.Intn(len(b))
				w.Write(b[:n])
				w.Flush()
				b = b[n:]
			}
		}
		w.Write(b)
	})
}

// TIFFEnc applies TIFF predictor 2.
func TIFFEnc(b []byte, colors, bits, cols int) []byte {
	row := (colors*bits*cols + 7) / 8
	o := append([]byte(nil), b...)
	get := func(p []byte, k int) int {
		v := 0
		for i := 0; i < bits; i++ {
			x := k*bits + i
			v = v*2 + int(p[x/8]>>uint(7-x%8)&1)
		}
		return v
	}
	set := func(p []byte, k, v int) {
		for i := bits - 1; i >= 0; i-- {
			x := k*bits + i
			m := byte(1) << uint(7-x%8)
			p[x/8] &^= m
			if v&1 == 1 {
				p[x/8] |= m
			}
			v >>= 1
		}
	}
	for s := 0; s+row <= len(b); s += row {
		src, dst := b[s:s+row], o[s:s+row]
		for k := colors * cols; k > colors; {
			k--
			set(dst, k, get(src, k)-get(src, k-colors)+1<<uint(bits))
		}
	}
	return o
}
