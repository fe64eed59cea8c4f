package pdfx

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"io"
	"sync"
)

// Independent filter implementations (straight from ISO 32000-1, 7.4).

func Inflate(b []byte) ([]byte, error) {
	r, err := zlib.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(r)
}

func Deflate(b []byte) []byte { return DeflateLevel(b, zlib.DefaultCompression) }

// Compressors are big; they are used again.
var compressors = map[int]*sync.Pool{}

func init() {
	for lvl := zlib.HuffmanOnly; lvl <= zlib.BestCompression; lvl++ {
		lvl := lvl
		compressors[lvl] = &sync.Pool{New: func() any {
			w, err := zlib.NewWriterLevel(io.Discard, lvl)
			if err != nil {
				panic("harness: " + err.Error())
			}
			return w
		}}
	}
}

func DeflateLevel(b []byte, lvl int) []byte {
	return deflate(lvl, func(w *zlib.Writer) { w.Write(b) })
}

func deflate(lvl int, write func(*zlib.Writer)) []byte {
	var o bytes.Buffer
	w := compressors[lvl].Get().(*zlib.Writer)
	defer compressors[lvl].Put(w)
	w.Reset(&o)
	write(w)
	w.Close()
	return o.Bytes()
}

func HexDec(b []byte) ([]byte, error) {
	var o []byte
	hi, have := byte(0), false
	for _, c := range b {
		if IsWS(c) {
			continue
		}
		if c == '>' {
			break
		}
		var n byte
		switch {
		case c >= '0' && c <= '9':
			n = c - '0'
		case c >= 'a' && c <= 'f':
			n = c - 'a' + 10
		case c >= 'A' && c <= 'F':
			n = c - 'A' + 10
		default:
			return nil, fmt.Errorf("bad hex %q", c)
		}
		if have {
			o = append(o, hi<<4|n)
		} else {
			hi = n
		}
		have = !have
	}
	if have {
		o = append(o, hi<<4)
	}
	return o, nil
}

// Pred applies PNG predictor encoding with the given per-row filter types.
func PredEncode(b []byte, cols, bpp int, ft func(row int) byte) []byte {
	var o []byte
	prev := make([]byte, cols)
	for r := 0; r*cols < len(b); r++ {
		cur := make([]byte, cols)
		copy(cur, b[r*cols:min(len(b), r*cols+cols)])
		t := ft(r)
		o = append(o, t)
		for i := range cur {
			var a, c byte
			if i >= bpp {
				a, c = cur[i-bpp], prev[i-bpp]
			}
			up := prev[i]
			switch t {
			case 0:
				o = append(o, cur[i])
			case 1:
				o = append(o, cur[i]-a)
			case 2:
				o = append(o, cur[i]-up)
			case 3:
				o = append(o, cur[i]-byte((int(a)+int(up))/2))
			case 4:
				o = append(o, cur[i]-paeth(a, up, c))
			}
		}
		prev = cur
	}
	return o
}

func PredDecode(b []byte, cols, bpp int) ([]byte, error) {
	var o []byte
	prev := make([]byte, cols)
	if len(b)%(cols+1) != 0 {
		return nil, fmt.Errorf("predictor data %d not a multiple of %d", len(b), cols+1)
	}
	for p := 0; p < len(b); p += cols + 1 {
		t := b[p]
		cur := append([]byte(nil), b[p+1:p+1+cols]...)
		for i := range cur {
			var a, c byte
			if i >= bpp {
				a, c = cur[i-bpp], prev[i-bpp]
			}
			up := prev[i]
			switch t {
			case 0:
			case 1:
				cur[i] += a
			case 2:
				cur[i] += up
			case 3:
				cur[i] += byte((int(a) + int(up)) / 2)
			case 4:
				cur[i] += paeth(a, up, c)
			default:
				return nil, fmt.Errorf("bad PNG filter %d", t)
			}
		}
		o = append(o, cur...)
		prev = cur
	}
	return o, nil
}

func paeth(a, b, c byte) byte {
	p := int(a) + int(b) - int(c)
	ab := func(x int) int {
		if x < 0 {
			return -x
		}
		return x
	}
	pa, pb, pc := ab(p-int(a)), ab(p-int(b)), ab(p-int(c))
	if pa <= pb && pa <= pc {
		return a
	}
	if pb <= pc {
		return b
	}
	return c
}

// Decode applies a stream's filter chain (Flate, ASCIIHex, ASCII85, RunLength).
func (s *Stream) Decode() ([]byte, error) {
	var fs []Name
	var ps []Val
	switch f := s.D["Filter"].(type) {
	case Name:
		fs = []Name{f}
		ps = []Val{s.D["DecodeParms"]}
	case Arr:
		pa, _ := s.D["DecodeParms"].(Arr)
		for i, x := range f {
			n, ok := x.(Name)
			if !ok {
				return nil, fmt.Errorf("filter is %T", x)
			}
			fs = append(fs, n)
			if i < len(pa) {
				ps = append(ps, pa[i])
			} else {
				ps = append(ps, nil)
			}
		}
	case nil, Null:
	default:
		return nil, fmt.Errorf("filter is %T", f)
	}
	b := s.Raw
	for i, f := range fs {
		var err error
		switch f {
		case "FlateDecode":
			if b, err = Inflate(b); err != nil {
				return nil, err
			}
			if d, ok := ps[i].(Dict); ok {
				if p, _ := d["Predictor"].(int); p >= 10 {
					cols, _ := d["Columns"].(int)
					if cols == 0 {
						cols = 1
					}
					if b, err = PredDecode(b, cols, 1); err != nil {
						return nil, err
					}
				}
			}
		case "Crypt": // undone when the object was read
		case "ASCIIHexDecode":
			if b, err = HexDec(b); err != nil {
				return nil, err
			}
		case "ASCII85Decode":
			if b, err = A85Dec(b); err != nil {
				return nil, err
			}
		case "RunLengthDecode":
			if b, err = RLDec(b); err != nil {
				return nil, err
			}
		default:
			return nil, fmt.Errorf("filter %s", f)
		}
	}
	return b, nil
}
