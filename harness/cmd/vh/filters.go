package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"
	"time"

	"github.com/benedoc-inc/pdfer/core/parse"
	"verif/harness/pdfx"
)

// P11: filters invert what encoders produced.
func init() { props["P11"] = filtersReplay }

type filterStep struct {
	F, How string
	Pred   struct {
		P, Colors, Bits, Cols int
		Full                  bool
	}
}

func (s filterStep) encode(b []byte, r *rand.Rand) []byte {
	switch s.F {
	case "ASCIIHexDecode":
		return pdfx.HexEnc(b, s.How, r)
	case "ASCII85Decode":
		return pdfx.A85Enc(b, s.How, r)
	case "RunLengthDecode":
		return pdfx.RLEnc(b, s.How, r)
	}
	p := s.Pred
	row := (p.Colors*p.Bits*p.Cols + 7) / 8
	switch {
	case p.P == 2:
		b = pdfx.TIFFEnc(b, p.Colors, p.Bits, p.Cols)
	case p.P >= 10:
		n := len(b)
		b = pdfx.PredEncode(b, row, max(1, p.Colors*p.Bits/8), func(int) byte {
			if p.P == 15 {
				return byte(r.Intn(5))
			}
			return byte(p.P - 10)
		})
		if cut := (row - n%row) % row; cut > 0 {
			b = b[:len(b)-cut] // the last row may be short
		}
	}
	return pdfx.FlateEnc(b, s.How, r)
}

// fit fills the last row of the data up, if the step asks for whole rows.
func (s filterStep) fit(b []byte) []byte {
	if s.Pred.P == 0 || !s.Pred.Full {
		return b
	}
	row := (s.Pred.Colors*s.Pred.Bits*s.Pred.Cols + 7) / 8
	for len(b)%row != 0 {
		b = append(b, ' ')
	}
	return b
}

func (s filterStep) parms(r *rand.Rand) pdfx.Val {
	p := s.Pred
	if p.P == 0 {
		switch r.Intn(4) {
		case 0:
			return pdfx.Dict{"Predictor": 1}
		case 1:
			return pdfx.Dict{}
		}
		return pdfx.Null{}
	}
	d := pdfx.Dict{"Predictor": p.P}
	if p.Colors != 1 || r.Intn(2) == 0 {
		d["Colors"] = p.Colors
	}
	if p.Bits != 8 || r.Intn(2) == 0 {
		d["BitsPerComponent"] = p.Bits
	}
	if p.Cols != 1 || r.Intn(2) == 0 {
		d["Columns"] = p.Cols
	}
	return d
}

// chainDict is a stream dictionary for the chain (outermost filter first).
func chainDict(chain []filterStep, r *rand.Rand) pdfx.Dict {
	d := pdfx.Dict{}
	if len(chain) == 1 && r.Intn(2) == 0 {
		d["Filter"] = pdfx.Name(chain[0].F)
		if p := chain[0].parms(r); p != (pdfx.Null{}) {
			d["DecodeParms"] = p
		}
		return d
	}
	fs, ps, some := pdfx.Arr{}, pdfx.Arr{}, r.Intn(2) == 0
	for i := len(chain) - 1; i >= 0; i-- {
		fs = append(fs, pdfx.Name(chain[i].F))
		p := chain[i].parms(r)
		if chain[i].Pred.P != 0 {
			some = true
		}
		ps = append(ps, p)
	}
	d["Filter"] = fs
	if some {
		d["DecodeParms"] = ps
	}
	return d
}

func segData(segs [][]interface{}, r *rand.Rand) []byte {
	var b []byte
	for _, s := range segs {
		n := int(s[1].(float64))
		switch s[0].(string) {
		case "zero":
			b = append(b, make([]byte, n)...)
		case "run":
			b = append(b, bytes.Repeat([]byte{byte(r.Intn(256))}, n)...)
		case "lit":
			for i := 0; i < n; i++ {
				b = append(b, byte(i*37+i%7))
			}
		case "ramp":
			for i := 0; i < n; i++ {
				b = append(b, byte(i/3))
			}
		case "eod":
			b = append(b, strings.Repeat("~>>\x80z\xff", n/6+1)[:n]...)
		default:
			for i := 0; i < n; i++ {
				b = append(b, byte(r.Intn(256)))
			}
		}
	}
	return b
}

func dictText(d pdfx.Dict) []byte { return pdfx.Write(d) }

func filtersReplay(t *T) {
	var c struct {
		Segs   [][]interface{}
		Chain  []filterStep
		Damage string
	}
	t.JSON(&c)
	data := segData(c.Segs, t.R)
	// stages[i] is the data before step i
	cur := data
	var stages [][]byte
	for i, s := range c.Chain {
		if i == 0 {
			cur = s.fit(append([]byte(nil), cur...))
			data = cur
		}
		stages = append(stages, cur)
		cur = s.encode(cur, t.R)
		t.Steps++
	}
	enc := cur
	dict := chainDict(c.Chain, t.R)
	dt := dictText(dict)
	desc := func() string {
		var s []string
		for _, f := range c.Chain {
			x := f.F + ":" + f.How
			if f.Pred.P != 0 {
				x += fmt.Sprintf(":%+v", f.Pred)
			}
			s = append(s, x)
		}
		return strings.Join(s, " then ") + " damage " + c.Damage
	}
	if c.Damage != "" && c.Damage != "none" {
		bad := append([]byte(nil), enc...)
		at := 0
		if len(bad) > 0 {
			at = t.R.Intn(len(bad))
		}
		switch c.Damage {
		case "cut":
			bad = bad[:at]
		case "flip":
			if len(bad) > 0 {
				bad[at] ^= byte(1 + t.R.Intn(255))
			}
		case "insert":
			bad = append(bad[:at:at], append([]byte{byte(t.R.Intn(256))}, bad[at:]...)...)
		case "drop":
			if len(bad) > 0 {
				bad = append(bad[:at:at], bad[at+1:]...)
			}
		}
		start := time.Now()
		var out []byte
		var err error
		if !t.Do("DecodeStream", bad, func() { out, err = parse.DecodeStream(dt, bad, nil) }) {
			return
		}
		last := c.Chain[len(c.Chain)-1]
		t.Do("DecodeFilter", bad, func() {
			o2, err2 := parse.DecodeFilter(bad, last.F)
			if len(c.Chain) == 1 && last.Pred.P == 0 && err == nil && err2 == nil && !bytes.Equal(out, o2) {
				t.FailBlob("damaged", bad, "%s: DecodeStream gives %d bytes, DecodeFilter %d", desc(), len(out), len(o2))
			}
		})
		if d := time.Since(start); d > 10*time.Second {
			t.FailBlob("slow", bad, "%s: decoding %d bytes took %v", desc(), len(bad), d)
		}
		if c.Damage == "cut" && err == nil && len(c.Chain) == 1 {
			if n := len(out) - 4; len(out) > len(data) || (n > 0 && !bytes.Equal(out[:n], data[:n])) {
				t.FailBlob("cut", bad, "%s: cut after %d of %d bytes, decoded without error to %d bytes that do not start the data", desc(), at, len(enc), len(out))
			}
		}
		if ref := map[string]func([]byte) ([]byte, error){"ASCIIHexDecode": pdfx.HexDec, "ASCII85Decode": pdfx.A85Dec, "RunLengthDecode": pdfx.RLDec,
			"FlateDecode": pdfx.Inflate}[last.F]; ref != nil && len(c.Chain) == 1 && last.Pred.P == 0 {
			// what is still a legal encoding, if of something else, must be decoded
			if want, rerr := ref(bad); rerr == nil && (err != nil || !bytes.Equal(out, want)) {
				t.FailBlob("legal:"+last.F, bad, "%s: the damaged bytes are a legal encoding of %d bytes, decoded to %d bytes, %v", desc(), len(want), len(out), err)
			}
		}
		t.Count("damaged", 1)
		return
	}

	// one filter at a time
	cur = enc
	for i := len(c.Chain) - 1; i >= 0; i-- {
		s := c.Chain[i]
		name := s.F
		if t.R.Intn(2) == 0 {
			name = "/" + name
		}
		if s.Pred.P == 0 {
			var out []byte
			var err error
			if !t.Do("DecodeFilter", cur, func() { out, err = parse.DecodeFilter(cur, name) }) {
				return
			}
			if err != nil || !bytes.Equal(out, stages[i]) {
				t.FailBlob("decode:"+s.F, cur, "%s: DecodeFilter(%d bytes, %s) gives %d bytes, %v; want %d bytes", desc(), len(cur), name, len(out), err, len(stages[i]))
				return
			}
			direct := map[string]func([]byte) ([]byte, error){"FlateDecode": parse.DecodeFlateDecode, "ASCIIHexDecode": parse.DecodeASCIIHex,
				"ASCII85Decode": parse.DecodeASCII85, "RunLengthDecode": parse.DecodeRunLength}[s.F]
			if o2, err := direct(cur); err != nil || !bytes.Equal(o2, out) {
				t.FailBlob("direct:"+s.F, cur, "%s: the %s function and DecodeFilter differ: %v", desc(), s.F, err)
			}
		}
		cur = stages[i]
	}
	// the whole chain
	var out []byte
	var err error
	keep := append([]byte(nil), enc...)
	if !t.Do("DecodeStream", enc, func() { out, err = parse.DecodeStream(dt, enc, nil) }) {
		return
	}
	if err != nil || !bytes.Equal(out, data) {
		t.FailBlob("chain", enc, "%s: DecodeStream(%s) gives %d bytes, %v; want %d bytes", desc(), dt, len(out), err, len(data))
		return
	}
	if !bytes.Equal(keep, enc) {
		t.FailBlob("mutate", enc, "%s: decoding changed its input", desc())
		return
	}
	// the library's own encoders, read by its decoders and by independent ones
	for _, e := range []struct {
		name string
		enc  func([]byte) []byte
		dec  func([]byte) ([]byte, error)
		ref  func([]byte) ([]byte, error)
	}{
		{"ASCIIHex", parse.EncodeASCIIHex, parse.DecodeASCIIHex, pdfx.HexDec},
		{"ASCII85", parse.EncodeASCII85, parse.DecodeASCII85, pdfx.A85Dec},
		{"RunLength", parse.EncodeRunLength, parse.DecodeRunLength, pdfx.RLDec},
	} {
		t.Do("Encode"+e.name, data, func() {
			x := e.enc(data)
			if o, err := e.dec(x); err != nil || !bytes.Equal(o, data) {
				t.FailBlob("encode:"+e.name, data, "Encode%s of %d bytes is decoded to %d bytes, %v", e.name, len(data), len(o), err)
			}
			if o, err := e.ref(x); err != nil || !bytes.Equal(o, data) {
				t.FailBlob("encodes:"+e.name, data, "Encode%s of %d bytes is read by an independent decoder as %d bytes, %v", e.name, len(data), len(o), err)
			}
		})
	}
	filtersInFile(t, c.Chain, data, desc)
}

// filtersInFile uses the chain for an object stream and a cross-reference
// stream: objects must be found with the data in them.
func filtersInFile(t *T, chain []filterStep, data []byte, desc func() string) {
	enc := func(b []byte) (pdfx.Dict, []byte) {
		for i, s := range chain {
			if i == 0 {
				b = s.fit(append([]byte(nil), b...))
			}
			b = s.encode(b, t.R)
		}
		return chainDict(chain, t.R), b
	}
	if len(data) > 2000 {
		data = data[:2000]
	}
	str := fmt.Sprintf("<%x>", data)
	num := fmt.Sprintf("%d", t.R.Intn(1000))
	head := fmt.Sprintf("5 0 6 %d ", len(str)+1)
	od, ob := enc([]byte(head + str + " " + num + " "))
	var f bytes.Buffer
	f.WriteString("%PDF-1.5\n%\xe2\xe3\xcf\xd3\n")
	off := map[int]int{}
	put := func(n int, s string) {
		off[n] = f.Len()
		fmt.Fprintf(&f, "%d 0 obj\n%s\nendobj\n", n, s)
	}
	stream := func(n int, d pdfx.Dict, b []byte) {
		d["Length"] = len(b)
		off[n] = f.Len()
		fmt.Fprintf(&f, "%d 0 obj\n%s\nstream\n%s\nendstream\nendobj\n", n, dictText(d), b)
	}
	put(1, "<< /Type /Catalog /Pages 2 0 R >>")
	put(2, "<< /Type /Pages /Count 1 /Kids [3 0 R] >>")
	put(3, "<< /Type /Page /Parent 2 0 R /MediaBox [0 0 100 100] >>")
	od["Type"], od["N"], od["First"] = pdfx.Name("ObjStm"), 2, len(head)
	stream(4, od, ob)
	xoff := f.Len()
	var x bytes.Buffer
	ent := func(t, a, b int) { x.Write([]byte{byte(t), byte(a >> 16), byte(a >> 8), byte(a), byte(b)}) }
	ent(0, 0, 255)
	for n := 1; n <= 4; n++ {
		ent(1, off[n], 0)
	}
	ent(2, 4, 0)
	ent(2, 4, 1)
	ent(1, xoff, 0)
	xd, xb := enc(x.Bytes())
	xd["Type"], xd["W"], xd["Size"], xd["Root"] = pdfx.Name("XRef"), pdfx.Arr{1, 3, 1}, 8, pdfx.Ref{N: 1}
	stream(7, xd, xb)
	fmt.Fprintf(&f, "startxref\n%d\n%%%%EOF\n", xoff)
	file := f.Bytes()
	t.Do("Open", file, func() {
		p, err := parse.Open(file)
		if err != nil {
			t.FailBlob("file", file, "%s: a file whose object and cross-reference streams use it does not open: %v", desc(), err)
			return
		}
		o, err := p.GetObject(5)
		v, perr := pdfx.Parse(o)
		s, ok := v.(pdfx.Str)
		if err != nil || perr != nil || !ok || !bytes.Equal([]byte(s), data) {
			t.FailBlob("file", file, "%s: object 5 of an object stream encoded so: %v %v, got %d bytes, want a string of %d bytes", desc(), err, perr, len(o), len(data))
			return
		}
		if o, err := p.GetObject(6); err != nil || strings.TrimSpace(string(o)) != num {
			t.FailBlob("file", file, "%s: object 6 of an object stream encoded so is %q, %v, want %s", desc(), o, err, num)
		}
		if o, err := p.GetObject(3); err != nil || !bytes.Contains(o, []byte("/Parent 2 0 R")) {
			t.FailBlob("file", file, "%s: object 3, found through a cross-reference stream encoded so: %q, %v", desc(), o, err)
		}
		t.Count("files", 1)
	})
}
