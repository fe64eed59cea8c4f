package main

import (
	"bytes"
	"fmt"
	"math/rand"

	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/core/write"
	"verif/harness/pdfx"
)

// P02: sessions of WriterSession.tla replayed into a real PDFWriter.

type wOp struct {
	A    string   `json:"a"`
	N    int      `json:"n"`
	K    string   `json:"k"`
	Next int      `json:"next"`
	Root int      `json:"root"`
	Info int      `json:"info"`
	Xs   bool     `json:"xs"`
	Os   bool     `json:"os"`
	Ver  int      `json:"ver"`
	Objs [][3]any `json:"objs"`
}

// toGo renders a value the way callers of the writer pass dictionary entries.
func toGo(r *rand.Rand, v pdfx.Val) interface{} {
	switch x := v.(type) {
	case pdfx.Name:
		return "/" + string(x)
	case pdfx.Ref:
		return fmt.Sprintf("%d %d R", x.N, x.G)
	case pdfx.Real:
		return float64(x)
	case int:
		if r.Intn(2) == 0 {
			return int64(x)
		}
		return x
	case pdfx.Str:
		return []byte(x)
	case pdfx.Arr:
		o := []interface{}{}
		for _, e := range x {
			o = append(o, toGo(r, e))
		}
		return o
	case pdfx.Dict:
		o := write.Dictionary{}
		for k, e := range x {
			o[key(r, k)] = toGo(r, e)
		}
		return o
	case pdfx.Null:
		return nil
	}
	return v
}

func key(r *rand.Rand, k string) string {
	if r.Intn(2) == 0 {
		return "/" + k
	}
	return k
}

func randStreamDict(r *rand.Rand, id int) pdfx.Dict {
	d := pdfx.Dict{"V": id}
	for _, k := range []string{"Type", "Subtype", "BBox", "Resources", "Parms", "S", "Big", "Flag", "Nil", "LengthX", "FilterX"} {
		if r.Intn(3) > 0 {
			continue
		}
		d[k] = map[string]pdfx.Val{
			"Type": pdfx.Name("XObject"), "Subtype": pdfx.Name("Form"), "BBox": pdfx.Arr{0, pdfx.Real(-1.5), 100, pdfx.Real(0.001)},
			"Resources": pdfx.Dict{"Font": pdfx.Dict{"F1": pdfx.Ref{N: 3}}, "E": pdfx.Dict{}}, "Parms": pdfx.Arr{pdfx.Dict{"A": pdfx.Arr{}}, pdfx.Name("X")},
			"S": pdfx.Str("\x00(\\)>>stream\nendobj\xff"), "Big": 123456789, "Flag": true, "Nil": pdfx.Null{}, "LengthX": 4, "FilterX": pdfx.Name("N"),
		}[k]
	}
	return d
}

func randBytes(r *rand.Rand) []byte {
	var b bytes.Buffer
	switch r.Intn(5) {
	case 0:
		fmt.Fprintf(&b, "q 1 0 0 1 %d 0 cm Q", r.Intn(100))
	case 1:
		for i := 1 + r.Intn(40); i > 0; i-- {
			b.WriteByte(byte(r.Intn(256)))
		}
	case 2:
		b.WriteString(traps[r.Intn(len(traps))] + "\nendstream\nendobj\n7 0 obj\n<<>>")
	case 3:
		b.WriteString([]string{"\n", "\r", "\r\n", " ", "\x00", "x\r", "x\n", "\nx"}[r.Intn(8)])
	case 4:
		n := 1000 + r.Intn(60000)
		for b.Len() < n {
			fmt.Fprintf(&b, "%d %d m ", r.Intn(1000), r.Intn(10))
		}
	}
	return b.Bytes()
}

func init() {
	props["P02"] = func(t *T) {
		var log []wOp
		t.JSON(&log)
		r := t.R
		w := write.NewPDFWriter()
		type content struct {
			v    pdfx.Val // what a reader must see (streams: decoded data, no Length/Filter)
			comp bool
		}
		have := map[int]content{}
		shared := write.Dictionary{}
		// now and then the session follows the addition of hundreds of other
		// objects: all its numbers then lie that much higher
		base := 0
		t.Do("session", nil, func() {
			if r.Intn(25) == 0 {
				base = []int{250, 254, 255, 256, 300, 700}[r.Intn(6)]
				pad := r.Intn(3) * 60
				for k := 1; k <= base; k++ {
					v := pdfx.Dict{"V": 1000 + k, "P": pdfx.Str(bytes.Repeat([]byte{'p'}, pad))}
					if n := w.AddObject(pdfx.Write(v)); n != k {
						t.Fail("number", "object %d added first got number %d", k, n)
						return
					}
					have[k] = content{v: v}
				}
				t.Count("sessions_with_hundreds_of_objects", 1)
			}
			for i, op := range log {
				t.Steps++
				for _, p := range []*int{&op.N, &op.Next, &op.Root, &op.Info} {
					if *p > 0 && (p != &op.N || op.A == "set" || op.A == "root" || op.A == "info") {
						*p += base
					}
				}
				switch op.A {
				case "add", "set":
					id := i + 1
					n := op.N
					if op.K == "obj" {
						v := body(r, 50, id, true)
						raw := pdfx.Write(v)
						if r.Intn(3) == 0 {
							l := pdfx.RandLayout(r)
							raw = l.Style(v)
						}
						if op.A == "add" {
							n = w.AddObject(raw)
						} else {
							w.SetObject(n, raw)
						}
						have[n] = content{v: v}
					} else {
						d := randStreamDict(r, id)
						data := randBytes(r)
						if op.K == "empty" {
							data = [][]byte{nil, {}}[r.Intn(2)]
						}
						comp := op.K == "zstm"
						gd := toGo(r, d).(write.Dictionary)
						if r.Intn(3) == 0 { // a caller reusing one dictionary
							for k := range shared {
								delete(shared, k)
							}
							for k, v := range gd {
								shared[k] = v
							}
							gd = shared
						}
						if op.A == "add" {
							n = w.AddStreamObject(gd, data, comp)
						} else {
							w.SetStreamObject(n, gd, data, comp)
						}
						have[n] = content{v: &pdfx.Stream{D: d, Raw: data}, comp: comp}
					}
					if op.A == "add" && n != op.Next-1 {
						t.Fail("number", "call %d: new object got number %d, should be %d", i+1, n, op.Next-1)
						return
					}
				case "root":
					w.SetRoot(op.N)
				case "info":
					w.SetInfo(op.N)
				case "xs":
					w.UseXRefStream(op.K == "t")
				case "os":
					w.UseObjectStream(op.K == "t")
				case "ver":
					w.SetVersion(fmt.Sprintf("1.%d", op.N))
				case "produce":
					if len(op.Objs)+base != len(have) {
						panic("harness: specification and replay disagree on the objects")
					}
					times := 1 + r.Intn(2)
					for k := 0; k < times; k++ {
						var out []byte
						var err error
						if r.Intn(2) == 0 {
							out, err = w.Bytes()
						} else {
							var b bytes.Buffer
							err = w.Write(&b)
							out = b.Bytes()
						}
						if err != nil {
							t.Fail("produce", "call %d: %v", i+1, err)
							return
						}
						want := map[int]pdfx.Val{}
						for n, c := range have {
							want[n] = c.v
						}
						checkWritten(t, i+1, out, op, want)
						if t.Failed() {
							return
						}
					}
				}
				if w.NextObjectNumber() != op.Next {
					t.Fail("next", "after call %d (%s): next object number is %d, should be %d", i+1, op.A, w.NextObjectNumber(), op.Next)
					return
				}
			}
		})
	}
}

// sameContent compares an object read back with what was given: stream data
// decoded, Length and Filter left to the writer.
func sameContent(got, want pdfx.Val) error {
	ws, ok := want.(*pdfx.Stream)
	if !ok {
		if pdfx.Canon(got) != pdfx.Canon(want) {
			return fmt.Errorf("is %.200s, should be %.200s", pdfx.Canon(got), pdfx.Canon(want))
		}
		return nil
	}
	gs, ok := got.(*pdfx.Stream)
	if !ok {
		return fmt.Errorf("is %.200s, should be a stream", pdfx.Canon(got))
	}
	data, err := gs.Decode()
	if err != nil {
		return fmt.Errorf("does not decode: %v", err)
	}
	if !bytes.Equal(data, ws.Raw) {
		return fmt.Errorf("has data %.100q (%d bytes), should be %.100q (%d)", data, len(data), ws.Raw, len(ws.Raw))
	}
	d := pdfx.Dict{}
	for k, v := range gs.D {
		if k != "Length" && k != "Filter" {
			d[k] = v
		}
	}
	if pdfx.Canon(d) != pdfx.Canon(ws.D) {
		return fmt.Errorf("has dictionary %.300s, should be %.300s", pdfx.Canon(d), pdfx.Canon(ws.D))
	}
	return nil
}

func checkWritten(t *T, call int, out []byte, op wOp, want map[int]pdfx.Val) {
	f, err := pdfx.ReadFile(out)
	if err != nil {
		t.FailBlob("malformed", out, "call %d: strict reader: %v", call, err)
		return
	}
	if !bytes.HasPrefix(out, []byte(fmt.Sprintf("%%PDF-1.%d", op.Ver))) {
		t.FailBlob("version", out, "call %d: header %.10q, should be 1.%d", call, out, op.Ver)
	}
	ref := func(n int) string {
		if n == 0 {
			return ""
		}
		return fmt.Sprintf("%d 0 R", n)
	}
	tref := func(v pdfx.Val) string {
		if r, ok := v.(pdfx.Ref); ok {
			return refStr(&r)
		}
		return ""
	}
	if tref(f.Trailer["Root"]) != ref(op.Root) || tref(f.Trailer["Info"]) != ref(op.Info) {
		t.FailBlob("trailer", out, "call %d: trailer %s, should have root %q info %q", call, pdfx.Canon(f.Trailer), ref(op.Root), ref(op.Info))
	}
	p, err := parse.Open(out)
	if err != nil {
		t.FailBlob("reopen", out, "call %d: %v", call, err)
		return
	}
	if tr := p.Trailer(); tr == nil || tr.RootRef != ref(op.Root) || tr.InfoRef != ref(op.Info) {
		t.FailBlob("reopen/trailer", out, "call %d: reader's trailer %+v, should have root %q info %q", call, tr, ref(op.Root), ref(op.Info))
	}
	for _, n := range f.Nums() {
		if _, ok := want[n]; !ok && n < op.Next {
			t.FailBlob("extra", out, "call %d: object %d was never given", call, n)
		}
		if n >= op.Next {
			v, _ := f.Get(n)
			s, ok := v.(*pdfx.Stream)
			if !ok || (s.D["Type"] != pdfx.Name("ObjStm") && s.D["Type"] != pdfx.Name("XRef")) {
				t.FailBlob("extra", out, "call %d: object %d was never given", call, n)
			}
		}
	}
	for n, w := range want {
		v, err := f.Get(n)
		if err == nil {
			err = sameContent(v, w)
		}
		if err != nil {
			t.FailBlob("object", out, "call %d: object %d %v", call, n, err)
			return
		}
		b, err := p.GetObject(n)
		if err == nil {
			if v, err = pdfx.ParseIndirect(b); err == nil {
				err = sameContent(v, w)
			}
		}
		if err != nil {
			t.FailBlob("reopen/object", out, "call %d: the reader's object %d: %v", call, n, err)
			return
		}
		t.Count("objects_compared", 1)
	}
	for _, n := range p.Objects() {
		if _, ok := want[n]; !ok && n < op.Next && n != 0 {
			t.FailBlob("reopen/extra", out, "call %d: reader lists object %d, which was never given", call, n)
		}
	}
}
