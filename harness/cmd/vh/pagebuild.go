package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"image"
	"image/color"
	"image/jpeg"
	"image/png"
	"math"
	"math/rand"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode/utf16"

	"github.com/benedoc-inc/pdfer/content/extract"
	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/resources/font"
	"verif/harness/pdfx"
)

// Drawing sessions of PageBuild.tla: pages are drawn with the library's
// builders and every document written is read back strictly.

type pbTrace struct {
	Log []struct {
		A string `json:"a"`
		P int    `json:"p"`
		X int    `json:"x"`
		Y int    `json:"y"`
	} `json:"log"`
	Shows [][]struct {
		F int   `json:"f"`
		S int   `json:"s"`
		T []int `json:"t"`
	} `json:"shows"`
	Order []int `json:"order"`
}

// What the characters of a text may be: those of WinAnsiEncoding. Characters
// a font does not have to show alike (space and hyphen twice) are left out.
var winChars = func() (o []rune) {
	for c := 32; c < 256; c++ {
		if c == 0x7f || c == 0xa0 || c == 0xad {
			continue
		}
		for _, r := range pdfx.WinAnsi([]byte{byte(c)}) {
			if r != 0xfffd && (r < 0x7f || r > 0x9f) && (r != 0x2022 || c == 0x95) {
				o = append(o, r)
			}
		}
	}
	return
}()

func winCode(c rune) byte {
	for i := 32; i < 256; i++ {
		if i != 0x7f && i != 0xa0 && i != 0xad && pdfx.WinAnsi([]byte{byte(i)}) == string(c) {
			return byte(i)
		}
	}
	panic("harness: not in WinAnsiEncoding")
}

func winBytes(s string) (o []byte) {
	for _, c := range s {
		o = append(o, winCode(c))
	}
	return
}

func pbText(r *rand.Rand, ascii bool) string {
	if r.Intn(5) == 0 {
		return []string{"(", ")", "\\", "a(b)c", "((", "\\(", "x\\", "end)Tj", "%", "<</A>>", "[ ]", " ", "ET Q", "Hello", "7", "\\101"}[r.Intn(16)]
	}
	var b strings.Builder
	for n := 1 + r.Intn(12); n > 0; n-- {
		if ascii || r.Intn(2) == 0 {
			b.WriteRune(rune(33 + r.Intn(94)))
		} else {
			b.WriteRune(winChars[r.Intn(len(winChars))])
		}
	}
	return b.String()
}

// pbNum is a number content streams can hold exactly.
func pbNum(r *rand.Rand) float64 {
	switch r.Intn(4) {
	case 0:
		return float64(r.Intn(1000))
	case 1:
		return float64(r.Intn(2000000)-1000000) / 1000
	case 2:
		return float64(r.Intn(20001)-10000) / 10000
	}
	return float64(r.Intn(20)) / 4
}

func pbNums(r *rand.Rand, n int) (o []float64) {
	for ; n > 0; n-- {
		o = append(o, pbNum(r))
	}
	return
}

func pbUnit(r *rand.Rand) float64 { return float64(r.Intn(10001)) / 10000 }

// ---------------------------------------------------------------- fonts

type pbFont struct {
	name    string // what BaseFont must be (embedded: end in)
	std     bool
	data    []byte
	widths  map[rune]int // in font units
	upm     int
	asc     int
	desc    int
	italic  float64
	otto    bool
	lib     *font.Font
	texts   map[int]string
	symbols bool
}

// pbTTF makes a font that has glyphs for the given characters.
func pbTTF(r *rand.Rand, f *pbFont, chars []rune) {
	be16 := func(v ...int) (o []byte) {
		for _, x := range v {
			o = binary.BigEndian.AppendUint16(o, uint16(x))
		}
		return
	}
	be32 := func(v ...int) (o []byte) {
		for _, x := range v {
			o = binary.BigEndian.AppendUint32(o, uint32(x))
		}
		return
	}
	f.upm = []int{1000, 2048, 512, 4096, 16, 1024}[r.Intn(6)]
	set := map[int]bool{}
	for _, c := range chars {
		set[int(c)] = true
	}
	for n := r.Intn(60); n > 0; n-- {
		set[[]int{33, 0x100, 0x400, 0x4e00, 0xf000}[r.Intn(5)]+r.Intn(90)] = true
	}
	var codes []int
	for c := range set {
		codes = append(codes, c)
	}
	sort.Ints(codes)
	// glyphs: in the order of the characters (runs share a delta), or mixed
	gid := map[int]int{}
	next := 1 + r.Intn(3)
	perm := r.Perm(len(codes))
	mixed := r.Intn(2) == 0
	for i, c := range codes {
		if mixed {
			gid[c] = next + perm[i]
		} else {
			gid[c] = next + i
		}
	}
	num := next + len(codes) + r.Intn(3)
	adv := make([]int, num)
	for i := range adv {
		adv[i] = r.Intn(2*f.upm + 1)
	}
	metrics := num
	if r.Intn(2) == 0 { // the last metric holds for the glyphs that follow
		metrics = 1 + r.Intn(num)
		for i := metrics; i < num; i++ {
			adv[i] = adv[metrics-1]
		}
	}
	f.widths = map[rune]int{}
	for c, g := range gid {
		f.widths[rune(c)] = adv[g]
	}
	f.asc, f.desc = r.Intn(f.upm+1), -r.Intn(f.upm+1)
	f.italic = float64([]int{0, 0, -12, 7}[r.Intn(4)])
	f.otto = r.Intn(6) == 0

	var hmtx []byte
	for i := 0; i < num; i++ {
		if i < metrics {
			hmtx = append(hmtx, be16(adv[i])...)
		}
		hmtx = append(hmtx, be16(r.Intn(50))...)
	}
	head := append(be32(0x10000, 0x10000, 0, 0x5F0F3CF5), be16(0, f.upm)...)
	head = append(head, make([]byte, 16)...)
	head = append(head, be16(-f.upm/4, f.desc, f.upm, f.asc, 0, 8, 2, 0, 0)...)
	hhea := append(be32(0x10000), be16(f.asc, f.desc, 0)...)
	hhea = append(hhea, make([]byte, 24)...)
	hhea = append(hhea, be16(metrics)...)
	maxp := append(be32(0x10000), be16(num)...)
	maxp = append(maxp, make([]byte, 26)...)
	if f.otto {
		maxp = append(be32(0x5000), be16(num)...)
	}
	post := append(be32(0x30000, int(f.italic*65536)), make([]byte, 24)...)

	// cmap
	fmt4 := func() []byte {
		type seg struct{ start, end, delta, off int }
		var segs []seg
		var arr []int
		all := r.Intn(2) == 0
		var list []int
		for _, c := range codes {
			if c < 0xffff {
				list = append(list, c)
			}
		}
		for i := 0; i < len(list); {
			j := i + 1
			for j < len(list) && list[j] == list[j-1]+1 && (all || gid[list[j]] == gid[list[j-1]]+1) {
				j++
			}
			s := seg{list[i], list[j-1], 0, -1}
			delta := true
			for k := i; k < j; k++ {
				delta = delta && gid[list[k]]-list[k] == gid[list[i]]-list[i]
			}
			if delta && r.Intn(3) > 0 {
				s.delta = gid[list[i]] - list[i]
			} else {
				s.off = len(arr)
				s.delta = []int{0, 0, 5, -7}[r.Intn(4)]
				for k := i; k < j; k++ {
					if gid[list[k]] == s.delta { // 0 would be no glyph
						s.delta = 0
					}
				}
				for k := i; k < j; k++ {
					arr = append(arr, gid[list[k]]-s.delta)
				}
			}
			segs = append(segs, s)
			i = j
		}
		segs = append(segs, seg{0xffff, 0xffff, 1, -1})
		n := len(segs)
		b := be16(4, 16+8*n+2*len(arr), 0, 2*n, 0, 0, 0)
		for _, s := range segs {
			b = append(b, be16(s.end)...)
		}
		b = append(b, 0, 0)
		for _, s := range segs {
			b = append(b, be16(s.start)...)
		}
		for _, s := range segs {
			b = append(b, be16(s.delta)...)
		}
		for i, s := range segs {
			if s.off < 0 {
				b = append(b, 0, 0)
			} else {
				b = append(b, be16(2*(n-i+s.off))...)
			}
		}
		return append(b, be16(arr...)...)
	}
	fmt12 := func() []byte {
		var groups []byte
		n := 0
		for i := 0; i < len(codes); {
			j := i + 1
			for j < len(codes) && codes[j] == codes[j-1]+1 && gid[codes[j]] == gid[codes[j-1]]+1 && r.Intn(20) > 0 {
				j++
			}
			groups = append(groups, be32(codes[i], codes[j-1], gid[codes[i]])...)
			n++
			i = j
		}
		return append(append(be16(12, 0), be32(16+len(groups), 0, n)...), groups...)
	}
	// format 0 stands for glyphs by Macintosh codes, and is not to be used
	fmt0 := append(be16(0, 262, 0), bytes.Repeat([]byte{1}, 256)...)
	type sub struct {
		p, e int
		b    []byte
	}
	var subs []sub
	switch r.Intn(4) {
	case 0:
		subs = []sub{{3, 1, fmt4()}}
	case 1:
		subs = []sub{{0, 3, fmt4()}, {1, 0, fmt0}, {3, 1, fmt4()}, {3, 10, fmt12()}}
	case 2:
		subs = []sub{{0, 3, fmt4()}}
	case 3:
		subs = []sub{{1, 0, fmt0}, {3, 10, fmt12()}}
	}
	cmap := be16(0, len(subs))
	at := 4 + 8*len(subs)
	for _, s := range subs {
		cmap = append(append(cmap, be16(s.p, s.e)...), be32(at)...)
		at += len(s.b)
	}
	for _, s := range subs {
		cmap = append(cmap, s.b...)
	}

	// name: the PostScript name among others
	f.name = []string{"Plain", "Some-Bold", "Ab_cd", "X1"}[r.Intn(4)] + strconv.Itoa(r.Intn(1000))
	var recs, strs []byte
	cnt := 0
	addName := func(p, id int, s string) {
		b := []byte(s)
		if p != 1 {
			b = nil
			for _, u := range utf16.Encode([]rune(s)) {
				b = append(b, byte(u>>8), byte(u))
			}
		}
		recs = append(recs, be16(p, 1, 0x409, id, len(b), len(strs))...)
		strs = append(strs, b...)
		cnt++
	}
	if r.Intn(2) == 0 {
		addName(1, 1, "Mac Family")
		addName(1, 6, "MacName")
	}
	addName(3, 1, []string{"Family", "Fämily (x)", "F\\y"}[r.Intn(3)])
	addName(3, 4, "Full Name")
	addName(3, 6, f.name)
	if r.Intn(2) == 0 {
		addName(3, 16, "Other")
	}
	name := append(append(be16(0, cnt, 6+12*cnt), recs...), strs...)

	tables := map[string][]byte{"cmap": cmap, "head": head, "hhea": hhea, "hmtx": hmtx, "maxp": maxp, "name": name, "post": post}
	if f.otto {
		tables["CFF "] = []byte{1, 0, 4, 1, 0, 0}
	} else {
		tables["glyf"], tables["loca"] = []byte{0, 0, 0, 0}, make([]byte, 2*(num+1))
	}
	if r.Intn(2) == 0 {
		tables["OS/2"] = make([]byte, []int{78, 96}[r.Intn(2)])
	}
	var tags []string
	for tag := range tables {
		tags = append(tags, tag)
	}
	sort.Strings(tags)
	sig := 0x10000
	if f.otto {
		sig = 0x4F54544F
	}
	dir := append(be32(sig), be16(len(tags), 0, 0, 0)...)
	var body []byte
	for _, tag := range tags {
		dir = append(append(dir, tag...), be32(0, 12+16*len(tags)+len(body), len(tables[tag]))...)
		body = append(body, tables[tag]...)
		for len(body)%4 != 0 {
			body = append(body, 0)
		}
	}
	f.data = append(dir, body...)
}

// ---------------------------------------------------------------- images

type pbImage struct {
	data []byte
	jpeg bool
	how  string
	w, h int
	cs   string // of a JPEG
	pix  func(x, y int) color.NRGBA
	slop int // how far a sample may be off
	info *write.ImageInfo
	name string
}

func pbNewImage(r *rand.Rand) *pbImage {
	w, h := 1+r.Intn(9), 1+r.Intn(9)
	o := &pbImage{w: w, h: h}
	rect := image.Rect(0, 0, w, h)
	if r.Intn(5) == 0 {
		o.jpeg = true
		comps := []int{1, 3, 4}[r.Intn(3)]
		o.cs = map[int]string{1: "DeviceGray", 3: "DeviceRGB", 4: "DeviceCMYK"}[comps]
		var file []byte
		if comps == 4 || r.Intn(2) == 0 { // a frame header is all that is looked at
			o.how = "frame header"
			sof := []byte{0xFF, []byte{0xC0, 0xC1, 0xC2, 0xC5, 0xC9}[r.Intn(5)], 0, byte(8 + 3*comps), 8, 0, byte(h), 0, byte(w), byte(comps)}
			sof[5], sof[7] = byte(r.Intn(3)), byte(r.Intn(3))
			o.h, o.w = h+256*int(sof[5]), w+256*int(sof[7])
			for i := 0; i < comps; i++ {
				sof = append(sof, byte(i+1), 0x11, 0)
			}
			file = append([]byte{0xFF, 0xD8}, sof...)
			file = append(file, 0xFF, 0xDA, 0, 8, 1, 1, 0, 0, 63, 0, 0x12, 0xFF, 0, 0xFF, 0xD9)
		} else {
			o.how = "jpeg"
			var b bytes.Buffer
			var img image.Image
			if comps == 1 {
				g := image.NewGray(rect)
				r.Read(g.Pix)
				img = g
			} else {
				g := image.NewRGBA(rect)
				r.Read(g.Pix)
				for i := 3; i < len(g.Pix); i += 4 {
					g.Pix[i] = 255
				}
				img = g
			}
			if err := jpeg.Encode(&b, img, nil); err != nil {
				panic(err)
			}
			file = b.Bytes()
		}
		// segments before the frame, one of them with the picture of another frame in it
		pre := []byte{0xFF, 0xD8}
		for n := r.Intn(4); n > 0; n-- {
			for r.Intn(3) == 0 && o.how != "jpeg" {
				pre = append(pre, 0xFF) // fill bytes
			}
			body := []byte("Exif\x00\x00")
			if r.Intn(2) == 0 {
				body = append(body, 0xFF, 0xC0, 0, 11, 8, 0, 99, 0, 98, 3, 1, 0x11, 0)
			}
			if n == 1 && r.Intn(2) == 0 {
				body = append(body, 0xFF)
			}
			pre = append(append(pre, 0xFF, []byte{0xE1, 0xE2, 0xFE}[r.Intn(3)], 0, byte(2+len(body))), body...)
		}
		o.data = append(pre, file[2:]...)
		return o
	}
	var img image.Image
	switch k := r.Intn(8); k {
	case 0:
		g := image.NewGray(rect)
		r.Read(g.Pix)
		img, o.how = g, "gray"
		o.pix = func(x, y int) color.NRGBA { v := g.GrayAt(x, y).Y; return color.NRGBA{v, v, v, 255} }
	case 1:
		g := image.NewGray16(rect)
		r.Read(g.Pix)
		img, o.how, o.slop = g, "gray16", 1
		o.pix = func(x, y int) color.NRGBA { v := byte(g.Gray16At(x, y).Y >> 8); return color.NRGBA{v, v, v, 255} }
	case 2, 3, 4:
		g := image.NewNRGBA(rect)
		r.Read(g.Pix)
		o.how = []string{"rgb", "rgba", "one transparent pixel"}[k-2]
		for i := 3; i < len(g.Pix); i += 4 {
			if k == 2 || k == 4 {
				g.Pix[i] = 255
			} else if r.Intn(2) == 0 {
				g.Pix[i] = []byte{0, 1, 2, 128, 254, 255}[r.Intn(6)]
			}
		}
		if k == 4 {
			g.Pix[3+4*r.Intn(w*h)] = byte(r.Intn(255))
		}
		img, o.pix = g, g.NRGBAAt
	case 5:
		g := image.NewNRGBA64(rect)
		r.Read(g.Pix)
		img, o.how, o.slop = g, "rgba64", 2
		o.pix = func(x, y int) color.NRGBA {
			c := g.NRGBA64At(x, y)
			return color.NRGBA{byte(c.R >> 8), byte(c.G >> 8), byte(c.B >> 8), byte(c.A >> 8)}
		}
	default:
		var pal color.Palette
		for n := 1 + r.Intn(17); n > 0; n-- {
			c := color.NRGBA{byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256)), 255}
			if k == 7 {
				c.A = byte(r.Intn(256))
			}
			pal = append(pal, c)
		}
		g := image.NewPaletted(rect, pal)
		for i := range g.Pix {
			g.Pix[i] = byte(r.Intn(len(pal)))
		}
		img, o.how = g, []string{"palette", "palette with transparency"}[k-6]
		o.pix = func(x, y int) color.NRGBA { return pal[g.ColorIndexAt(x, y)].(color.NRGBA) }
	}
	var b bytes.Buffer
	if err := (&png.Encoder{CompressionLevel: png.CompressionLevel(-r.Intn(4))}).Encode(&b, img); err != nil {
		panic(err)
	}
	o.data = b.Bytes()
	return o
}

func (o *pbImage) check(f *pdfx.File, x pdfx.Val) string {
	x, _ = f.Deref(x)
	s, ok := x.(*pdfx.Stream)
	if !ok {
		return "no stream"
	}
	if s.D["Subtype"] != pdfx.Name("Image") || s.D["Width"] != o.w || s.D["Height"] != o.h {
		return fmt.Sprintf("%.300s is not an image of %d x %d", pdfx.Canon(s.D), o.w, o.h)
	}
	if o.jpeg {
		if s.D["Filter"] != pdfx.Name("DCTDecode") || !bytes.Equal(s.Raw, o.data) || s.D["ColorSpace"] != pdfx.Name(o.cs) || s.D["BitsPerComponent"] != 8 {
			return fmt.Sprintf("%.300s is not the JPEG that was added (%s)", pdfx.Canon(s.D), o.cs)
		}
		return ""
	}
	get := func(s *pdfx.Stream) (int, func(x, y, c int) int, string) {
		b, err := s.Decode()
		if err != nil {
			return 0, nil, err.Error()
		}
		comps := map[pdfx.Val]int{pdfx.Name("DeviceGray"): 1, pdfx.Name("DeviceRGB"): 3}[s.D["ColorSpace"]]
		bits, _ := s.D["BitsPerComponent"].(int)
		if comps == 0 || bits != 8 && bits != 16 || len(b) != o.w*o.h*comps*bits/8 {
			return 0, nil, fmt.Sprintf("%.300s: %d bytes", pdfx.Canon(s.D), len(b))
		}
		return comps, func(x, y, c int) int { return int(b[((y*o.w+x)*comps+c)*bits/8]) }, ""
	}
	comps, at, bad := get(s)
	if bad != "" {
		return bad
	}
	alpha := func(x, y int) int { return 255 }
	if s.D["SMask"] != nil {
		m, _ := f.Deref(s.D["SMask"])
		ms, ok := m.(*pdfx.Stream)
		if !ok || ms.D["Width"] != o.w || ms.D["Height"] != o.h || ms.D["ColorSpace"] != pdfx.Name("DeviceGray") {
			return fmt.Sprintf("soft mask %.200s", pdfx.Canon(m))
		}
		_, mask, bad := get(ms)
		if bad != "" {
			return bad
		}
		alpha = func(x, y int) int { return mask(x, y, 0) }
	}
	near := func(a, b int) bool { return a-b <= o.slop && b-a <= o.slop }
	for y := 0; y < o.h; y++ {
		for x := 0; x < o.w; x++ {
			c := o.pix(x, y)
			if !near(alpha(x, y), int(c.A)) {
				return fmt.Sprintf("alpha at %d,%d is %d, should be %d", x, y, alpha(x, y), c.A)
			}
			if c.A == 0 {
				continue
			}
			for i, v := range []byte{c.R, c.G, c.B} {
				if got := at(x, y, i%comps); !near(got, int(v)) {
					return fmt.Sprintf("sample %d at %d,%d is %d, should be %d", i, x, y, got, v)
				}
			}
		}
	}
	return ""
}

// ---------------------------------------------------------------- pages

type pbPage struct {
	size  write.PageSize
	lib   *write.PageBuilder
	fonts map[int][]string // resource names
	ims   map[int][]string
	want  []func(k *pbCheck) string // each takes the operators it stands for
	sizes []float64
	shown []pbShown
	drawn int // images drawn
	done  bool
}

type pbShown struct {
	text, font string
	size       float64
	any        bool // the text is in a font with an encoding of its own
}

type pbCheck struct {
	f     *pdfx.File
	ops   []pdfx.Op
	at    int
	fonts pdfx.Dict
	ims   pdfx.Dict
	gs    pdfx.Dict
}

func (k *pbCheck) take(op string, args int) (pdfx.Op, string) {
	if k.at >= len(k.ops) {
		return pdfx.Op{}, "operator " + op + " is missing"
	}
	o := k.ops[k.at]
	k.at++
	if o.Op != op || len(o.Args) != args {
		return o, fmt.Sprintf("operator %d is %s %v, should be %s", k.at, o.Op, o.Args, op)
	}
	return o, ""
}

// plain expects an operator with numbers.
func (k *pbCheck) plain(op string, args []float64) string {
	o, bad := k.take(op, len(args))
	for i := 0; bad == "" && i < len(args); i++ {
		if n, ok := pdfx.Num(o.Args[i]); !ok || math.Abs(n-args[i]) > 6e-5 {
			bad = fmt.Sprintf("operator %d is %s %v, should have %v", k.at, op, o.Args, args)
		}
	}
	return bad
}

type pbSession struct {
	t     *T
	r     *rand.Rand
	b     *write.SimplePDFBuilder
	fonts []*pbFont // from 1
	texts []string  // from 1
	plain []string  // the texts for fonts with their own encoding
	sizes []float64 // from 1
	ims   []*pbImage
	pages []*pbPage
	order []int
	pw    []byte
}

func (s *pbSession) text(f, n int) string {
	if s.fonts[f].symbols {
		return s.plain[n]
	}
	return s.texts[n]
}

var pbTag = regexp.MustCompile(`^[A-Z]{6}\+`)
var pbHex = regexp.MustCompile(`<([0-9A-Fa-f]*)>`)

// pbToUnicode reads a ToUnicode CMap.
func pbToUnicode(b []byte) (map[int]string, string) {
	o := map[int]string{}
	text := string(b)
	section := regexp.MustCompile(`(?s)(\d+)\s+begin(bfchar|bfrange)\b(.*?)\bend(bfchar|bfrange)\b`)
	str := func(h string) string {
		var u []uint16
		for i := 0; i+4 <= len(h); i += 4 {
			n, _ := strconv.ParseUint(h[i:i+4], 16, 16)
			u = append(u, uint16(n))
		}
		return string(utf16.Decode(u))
	}
	for _, m := range section.FindAllStringSubmatch(text, -1) {
		var hs []string
		for _, h := range pbHex.FindAllStringSubmatch(m[3], -1) {
			hs = append(hs, h[1])
		}
		per := map[string]int{"bfchar": 2, "bfrange": 3}[m[2]]
		n, _ := strconv.Atoi(m[1])
		if m[2] != m[4] || n > 100 || len(hs) != n*per {
			return nil, fmt.Sprintf("a %s section announces %d entries and has %d strings", m[2], n, len(hs))
		}
		for i := 0; i < len(hs); i += per {
			lo, _ := strconv.ParseUint(hs[i], 16, 32)
			hi := lo
			if per == 3 {
				hi, _ = strconv.ParseUint(hs[i+1], 16, 32)
			}
			if len(hs[i]) != 2 {
				return nil, fmt.Sprintf("code <%s> of a simple font", hs[i])
			}
			dst := []rune(str(hs[i+per-1]))
			if len(dst) == 0 {
				return nil, fmt.Sprintf("code <%s> stands for nothing", hs[i])
			}
			for c := lo; c <= hi; c++ {
				o[int(c)] = string(dst)
				dst[len(dst)-1]++
			}
		}
	}
	return o, ""
}

// fontIs checks that a resource is the font that was meant.
func (s *pbSession) fontIs(k *pbCheck, name pdfx.Val, n int) string {
	f := s.fonts[n]
	res, _ := name.(pdfx.Name)
	d, err := k.f.DictOf(k.fonts[string(res)])
	if err != nil {
		return fmt.Sprintf("font %s: %v", res, err)
	}
	base, _ := d["BaseFont"].(pdfx.Name)
	if d["Type"] != pdfx.Name("Font") || pbTag.ReplaceAllString(string(base), "") != f.name {
		return fmt.Sprintf("font %s is %.300s, should be %s", res, pdfx.Canon(d), f.name)
	}
	if f.std {
		want := pdfx.Val(pdfx.Name("WinAnsiEncoding"))
		if f.symbols {
			want = nil
		}
		if d["Subtype"] != pdfx.Name("Type1") || d["FontDescriptor"] != nil || d["Encoding"] != want {
			return fmt.Sprintf("font %s is %.300s, should be the standard font %s", res, pdfx.Canon(d), f.name)
		}
		return ""
	}
	fd, err := k.f.DictOf(d["FontDescriptor"])
	if err != nil {
		return fmt.Sprintf("descriptor of %s: %v", res, err)
	}
	kind, file := "TrueType", "FontFile2"
	if f.otto {
		kind, file = "Type1", "FontFile3"
	}
	if d["Subtype"] != pdfx.Name(kind) || d["Encoding"] != pdfx.Name("WinAnsiEncoding") || fd["Type"] != pdfx.Name("FontDescriptor") || fd["FontName"] != d["BaseFont"] {
		return fmt.Sprintf("embedded font %s is %.300s, described by %.300s", res, pdfx.Canon(d), pdfx.Canon(fd))
	}
	scale := func(n int) int { return int(math.Round(float64(n) * 1000 / float64(f.upm))) }
	num := func(x pdfx.Val, want int) bool { v, ok := pdfx.Num(x); return ok && math.Abs(v-float64(want)) <= 1 }
	it, ok := pdfx.Num(fd["ItalicAngle"])
	flags, _ := fd["Flags"].(int)
	if !num(fd["Ascent"], scale(f.asc)) || !num(fd["Descent"], scale(f.desc)) || !ok || it != f.italic || flags&64 != 0 != (f.italic != 0) || flags&36 != 32 {
		return fmt.Sprintf("descriptor %.300s of a font with ascent %d, descent %d, slope %v in %d units per em", pdfx.Canon(fd), f.asc, f.desc, f.italic, f.upm)
	}
	if box, _ := fd["FontBBox"].(pdfx.Arr); len(box) != 4 || !num(box[0], scale(-f.upm/4)) || !num(box[1], scale(f.desc)) || !num(box[2], 1000) || !num(box[3], scale(f.asc)) {
		return fmt.Sprintf("descriptor %.300s of a font with box %v in %d units per em", pdfx.Canon(fd), []int{-f.upm / 4, f.desc, f.upm, f.asc}, f.upm)
	}
	prog, _ := k.f.Deref(fd[file])
	ps, ok := prog.(*pdfx.Stream)
	if !ok {
		return fmt.Sprintf("descriptor %.300s has no %s", pdfx.Canon(fd), file)
	}
	body, err := ps.Decode()
	if err != nil || !bytes.Equal(body, f.data) {
		return fmt.Sprintf("the font program of %s is not the one given (%v, %d bytes of %d)", f.name, err, len(body), len(f.data))
	}
	if !f.otto && ps.D["Length1"] != len(body) || f.otto && ps.D["Subtype"] != pdfx.Name("OpenType") {
		return fmt.Sprintf("font program %.300s of %d bytes", pdfx.Canon(ps.D), len(body))
	}
	ws, _ := d["Widths"].(pdfx.Arr)
	first, _ := d["FirstChar"].(int)
	last, _ := d["LastChar"].(int)
	if len(ws) != last-first+1 {
		return fmt.Sprintf("font %s has %d widths for %d..%d", f.name, len(ws), first, last)
	}
	tu, _ := k.f.Deref(d["ToUnicode"])
	ts, ok := tu.(*pdfx.Stream)
	if !ok {
		return fmt.Sprintf("font %s has no ToUnicode", f.name)
	}
	body, err = ts.Decode()
	if err != nil {
		return err.Error()
	}
	codes, bad := pbToUnicode(body)
	if bad != "" {
		return bad
	}
	for _, text := range f.texts {
		for _, c := range text {
			code := int(winCode(c))
			if code < first || code > last || !num(ws[code-first], scale(f.widths[c])) {
				return fmt.Sprintf("the width of %q (code %d of %d..%d) of font %s should be %d/%d: %.800s", c, code, first, last, f.name, f.widths[c], f.upm, pdfx.Canon(ws))
			}
			if codes[code] != string(c) {
				return fmt.Sprintf("code %d of font %s stands for %q, should be %q", code, f.name, codes[code], c)
			}
		}
	}
	return ""
}

func (s *pbSession) imageIs(k *pbCheck, name pdfx.Val, n int) string {
	res, _ := name.(pdfx.Name)
	o := s.ims[n]
	if bad := o.check(k.f, k.ims[string(res)]); bad != "" {
		return fmt.Sprintf("image %q (%s): %s", res, o.how, bad)
	}
	return ""
}

func one(name []string, r *rand.Rand) string { return name[r.Intn(len(name))] }

// draw calls the method of an operator and notes what must be written.
func (s *pbSession) draw(p *pbPage, op string, x, y int) {
	r, c := s.r, p.lib.Content()
	raw := r.Intn(6) == 0
	plain := func(args []float64, f func()) {
		name := op
		if raw {
			line := ""
			for _, a := range args {
				line += strconv.FormatFloat(a, 'f', -1, 64) + " "
			}
			c.Raw(line + name + []string{"", "\n"}[r.Intn(2)])
		} else {
			f()
		}
		p.want = append(p.want, func(k *pbCheck) string { return k.plain(name, args) })
	}
	n := func(m int) []float64 { return pbNums(r, m) }
	switch op {
	case "q":
		plain(nil, func() { c.SaveState() })
	case "Q":
		plain(nil, func() { c.RestoreState() })
	case "BT":
		plain(nil, func() { c.BeginText() })
	case "ET":
		plain(nil, func() { c.EndText() })
	case "cm":
		a := n(6)
		switch r.Intn(3) {
		case 0:
			a[0], a[1], a[2], a[3] = 1, 0, 0, 1
			plain(a, func() { c.Translate(a[4], a[5]) })
		case 1:
			a[1], a[2], a[4], a[5] = 0, 0, 0, 0
			plain(a, func() { c.Scale(a[0], a[3]) })
		default:
			plain(a, func() { c.SetMatrix(a[0], a[1], a[2], a[3], a[4], a[5]) })
		}
	case "w":
		a := n(1)
		plain(a, func() { c.SetLineWidth(a[0]) })
	case "rg":
		a := []float64{pbUnit(r), pbUnit(r), pbUnit(r)}
		plain(a, func() { c.SetFillColorRGB(a[0], a[1], a[2]) })
	case "RG":
		a := []float64{pbUnit(r), pbUnit(r), pbUnit(r)}
		plain(a, func() { c.SetStrokeColorRGB(a[0], a[1], a[2]) })
	case "g":
		a := []float64{pbUnit(r)}
		plain(a, func() { c.SetFillColorGray(a[0]) })
	case "G":
		a := []float64{pbUnit(r)}
		plain(a, func() { c.SetStrokeColorGray(a[0]) })
	case "Tc":
		a := n(1)
		plain(a, func() { c.SetCharSpacing(a[0]) })
	case "Tw":
		a := n(1)
		plain(a, func() { c.SetWordSpacing(a[0]) })
	case "TL":
		a := n(1)
		plain(a, func() { c.SetTextLeading(a[0]) })
	case "Ts":
		a := n(1)
		plain(a, func() { c.SetTextRise(a[0]) })
	case "Tr":
		m := r.Intn(4)
		plain([]float64{float64(m)}, func() { c.SetTextRenderMode(m) })
	case "Td":
		a := n(2)
		plain(a, func() { c.SetTextPosition(a[0], a[1]) })
	case "TD":
		a := n(2)
		plain(a, func() { c.MoveTextPosition(a[0], a[1]) })
	case "Tm":
		a := n(6)
		plain(a, func() { c.SetTextMatrix(a[0], a[1], a[2], a[3], a[4], a[5]) })
	case "T*":
		plain(nil, func() { c.NextLine() })
	case "m":
		a := n(2)
		plain(a, func() { c.MoveTo(a[0], a[1]) })
	case "l":
		a := n(2)
		plain(a, func() { c.LineTo(a[0], a[1]) })
	case "re":
		a := n(4)
		plain(a, func() { c.Rectangle(a[0], a[1], a[2], a[3]) })
	case "c":
		a := n(6)
		plain(a, func() { c.CurveTo(a[0], a[1], a[2], a[3], a[4], a[5]) })
	case "v":
		a := n(4)
		plain(a, func() { c.CurveToV(a[0], a[1], a[2], a[3]) })
	case "y":
		a := n(4)
		plain(a, func() { c.CurveToY(a[0], a[1], a[2], a[3]) })
	case "h":
		plain(nil, func() { c.ClosePath() })
	case "S":
		plain(nil, func() { c.Stroke() })
	case "s":
		plain(nil, func() { c.ClosePathStroke() })
	case "f":
		plain(nil, func() { c.Fill() })
	case "B":
		plain(nil, func() { c.FillStroke() })
	case "d":
		var dash []float64
		for n := r.Intn(4); n > 0; n-- {
			dash = append(dash, pbUnit(r)*10)
		}
		phase := pbUnit(r) * 5
		c.SetLineDash(dash, phase)
		p.want = append(p.want, func(k *pbCheck) string {
			o, bad := k.take("d", 2)
			if bad != "" {
				return bad
			}
			a, _ := o.Args[0].(pdfx.Arr)
			got, _ := pdfx.Num(o.Args[1])
			ok := len(a) == len(dash) && math.Abs(got-phase) < 6e-5
			for i := range dash {
				if ok {
					v, _ := pdfx.Num(a[i])
					ok = math.Abs(v-dash[i]) < 6e-5
				}
			}
			if !ok {
				return fmt.Sprintf("dash %s, should be %v %v", pdfx.Canon(pdfx.Arr(o.Args)), dash, phase)
			}
			return ""
		})
	case "Do", "at":
		name := one(p.ims[x], r)
		if op == "at" {
			a := n(4)
			c.DrawImageAt(name, a[0], a[1], a[2], a[3])
			p.want = append(p.want, func(k *pbCheck) string {
				if bad := k.plain("q", nil); bad != "" {
					return bad
				}
				return k.plain("cm", []float64{a[2], 0, 0, a[3], a[0], a[1]})
			})
		} else {
			c.DrawImage(name)
		}
		p.drawn++
		p.want = append(p.want, func(k *pbCheck) string {
			o, bad := k.take("Do", 1)
			if bad != "" {
				return bad
			}
			return s.imageIs(k, o.Args[0], x)
		})
		if op == "at" {
			p.want = append(p.want, func(k *pbCheck) string { return k.plain("Q", nil) })
		}
	case "Tf":
		name, size := one(p.fonts[x], r), s.sizes[y]
		c.SetFont(name, size)
		p.want = append(p.want, func(k *pbCheck) string {
			o, bad := k.take("Tf", 2)
			if bad != "" {
				return bad
			}
			if v, _ := pdfx.Num(o.Args[1]); math.Abs(v-size) > 6e-5 {
				return fmt.Sprintf("font size %v, should be %v", v, size)
			}
			return s.fontIs(k, o.Args[0], x)
		})
	default:
		panic("harness: operator " + op)
	}
}

// show shows texts in the font in force.
func (s *pbSession) show(p *pbPage, op string, texts []string) {
	r, c := s.r, p.lib.Content()
	want := map[string]string{"hex": "Tj"}[op]
	if want == "" {
		want = op
	}
	str := func(v pdfx.Val, text string) bool {
		b, ok := v.(pdfx.Str)
		return ok && bytes.Equal(b, winBytes(text))
	}
	switch op {
	case "Tj":
		c.ShowText(texts[0])
	case "'":
		c.ShowTextNextLine(texts[0])
	case "hex":
		c.ShowTextHex(fmt.Sprintf([]string{"%x", "%X"}[r.Intn(2)], winBytes(texts[0])))
	case "TJ":
		var list []interface{}
		var nums []float64
		num := func() {
			if r.Intn(2) == 0 {
				return
			}
			v := pbNum(r)
			if v == math.Trunc(v) && r.Intn(2) == 0 {
				list = append(list, int(v))
			} else {
				list = append(list, v)
			}
			nums = append(nums, v)
		}
		num()
		list = append(list, texts[0])
		num()
		list = append(list, texts[1])
		num()
		c.ShowTextArray(list)
		p.want = append(p.want, func(k *pbCheck) string {
			o, bad := k.take("TJ", 1)
			if bad != "" {
				return bad
			}
			a, _ := o.Args[0].(pdfx.Arr)
			if len(a) != len(list) {
				return fmt.Sprintf("text array %s, should be %q", pdfx.Canon(a), list)
			}
			for i, x := range list {
				ok := false
				switch v := x.(type) {
				case string:
					ok = str(a[i], v)
				case int:
					n, isNum := pdfx.Num(a[i])
					ok = isNum && n == float64(v)
				case float64:
					n, isNum := pdfx.Num(a[i])
					ok = isNum && math.Abs(n-v) < 6e-5
				}
				if !ok {
					return fmt.Sprintf("text array %s, should be %q", pdfx.Canon(a), list)
				}
			}
			return ""
		})
		return
	}
	p.want = append(p.want, func(k *pbCheck) string {
		o, bad := k.take(want, 1)
		if bad != "" {
			return bad
		}
		if !str(o.Args[0], texts[0]) {
			return fmt.Sprintf("%s shows %s, should show %q", want, pdfx.Canon(o.Args[0]), texts[0])
		}
		return ""
	})
}

// mark adds a watermark; it tells what extraction must find.
func (s *pbSession) mark(p *pbPage, kind string, x, y int) error {
	r := s.r
	o := write.WatermarkOptions{Opacity: []float64{1, 0.25, 0.5, 0.3, 1, 0.125}[r.Intn(6)]}
	if r.Intn(2) == 0 {
		o.X, o.Y = pbNum(r), pbNum(r)
	}
	if r.Intn(4) > 0 {
		o.Angle = []float64{45, 90, -30, 180, 12.5}[r.Intn(5)]
	}
	if r.Intn(3) > 0 {
		o.Color = &write.Color{R: pbUnit(r), G: pbUnit(r), B: pbUnit(r)}
	}
	if r.Intn(3) > 0 {
		o.FontSize = s.sizes[1+r.Intn(len(s.sizes)-1)]
	}
	short := false
	switch kind {
	case "tmark":
		o.Text = s.text(x, y)
		if o.FontName = s.fonts[x].name; x == 1 && r.Intn(2) == 0 {
			o.FontName = ""
		}
		short = x == 1 && r.Intn(4) == 0
	case "imark":
		if y == 1 { // an image the page does not have
			o.ImageName = "/" + []string{"Nope", "Im99", "a c"}[r.Intn(3)]
			break
		}
		o.ImageName = one(p.ims[x], r)
		if r.Intn(3) == 0 {
			o.Text = "ignored"
		}
		if r.Intn(3) == 0 && !strings.Contains(o.ImageName, "#") {
			o.ImageName = strings.TrimPrefix(o.ImageName, "/")
		}
	}
	given := o
	var err error
	switch {
	case short:
		def := write.DefaultWatermarkOptions()
		def.FontSize, def.Angle, def.Text = o.FontSize, o.Angle, o.Text
		if def.FontSize == 0 {
			def.FontSize = 48
		}
		if def.Angle == 0 {
			def.Angle = 45
		}
		given = *def
		err = p.lib.AddTextWatermark(o.Text, o.FontSize, o.Angle)
	default:
		err = p.lib.AddWatermark(&o)
		if o != given {
			s.t.Fail("watermark-options", "AddWatermark changed the options it was given: %+v, were %+v", o, given)
		}
	}
	if err != nil || kind == "nomark" || kind == "imark" && y == 1 {
		return err
	}
	if given.FontSize == 0 {
		given.FontSize = 48
	}
	col := write.Color{R: .5, G: .5, B: .5}
	if given.Color != nil {
		col = *given.Color
	}
	cx, cy := given.X, given.Y
	if cx == 0 && cy == 0 {
		cx, cy = p.size.Width/2, p.size.Height/2
	}
	if kind == "tmark" {
		p.shown = append(p.shown, pbShown{given.Text, "", given.FontSize, s.fonts[x].symbols})
	} else {
		p.drawn++
	}
	p.want = append(p.want, func(k *pbCheck) string {
		start := k.at
		if bad := k.plain("q", nil); bad != "" {
			return bad
		}
		m := [6]float64{1, 0, 0, 1, 0, 0}
		alpha, drew := 1.0, false
		fill := [3]float64{}
		text := ""
		for depth := 1; depth > 0; k.at++ {
			if k.at >= len(k.ops) {
				return "a watermark without an end"
			}
			op := k.ops[k.at]
			var a [6]float64
			for i, x := range op.Args {
				if v, ok := pdfx.Num(x); ok && i < 6 {
					a[i] = v
				}
			}
			switch op.Op {
			case "q":
				depth++
			case "Q":
				depth--
			case "cm":
				m = [6]float64{a[0]*m[0] + a[1]*m[2], a[0]*m[1] + a[1]*m[3], a[2]*m[0] + a[3]*m[2], a[2]*m[1] + a[3]*m[3], a[4]*m[0] + a[5]*m[2] + m[4], a[4]*m[1] + a[5]*m[3] + m[5]}
			case "gs":
				name, _ := op.Args[0].(pdfx.Name)
				d, err := k.f.DictOf(k.gs[string(name)])
				if err != nil {
					return fmt.Sprintf("graphics state %s: %v", name, err)
				}
				alpha, _ = pdfx.Num(d["ca"])
			case "rg":
				fill = [3]float64{a[0], a[1], a[2]}
			case "Tf":
				if math.Abs(a[1]-given.FontSize) > 6e-5 {
					return fmt.Sprintf("watermark of size %v, should be %v", a[1], given.FontSize)
				}
				if bad := s.fontIs(k, op.Args[0], x); bad != "" {
					return bad
				}
			case "Tj", "Do":
				bad := ""
				for i, v := range [3]float64{col.R, col.G, col.B} {
					if math.Abs(fill[i]-v) > 6e-5 && kind == "tmark" {
						bad = fmt.Sprintf("colour %v, should be %v", fill, col)
					}
				}
				if math.Abs(alpha-given.Opacity) > 1e-6 {
					bad = fmt.Sprintf("opacity %v, should be %v", alpha, given.Opacity)
				}
				sin, cos := math.Sincos(given.Angle * math.Pi / 180)
				lx, ly := math.Hypot(m[0], m[1]), math.Hypot(m[2], m[3])
				if math.Abs(m[0]/lx-cos) > 1e-3 || math.Abs(m[1]/lx-sin) > 1e-3 || math.Abs(m[2]/ly+sin) > 1e-3 || math.Abs(m[3]/ly-cos) > 1e-3 {
					bad = fmt.Sprintf("matrix %v, should turn by %v", m, given.Angle)
				}
				px, py := m[4], m[5]
				if kind == "imark" {
					px, py = px+(m[0]+m[2])/2, py+(m[1]+m[3])/2
				} else if lx < .999 || lx > 1.001 {
					bad = fmt.Sprintf("matrix %v scales", m)
				}
				if math.Hypot(px-cx, py-cy) > .2 {
					bad = fmt.Sprintf("at %v,%v, should be at %v,%v", px, py, cx, cy)
				}
				if drew {
					bad = "drawn twice"
				}
				drew = true
				if op.Op == "Tj" {
					b, _ := op.Args[0].(pdfx.Str)
					text = string(b)
				} else if kind == "imark" && bad == "" {
					bad = s.imageIs(k, op.Args[0], x)
				}
				if bad != "" {
					return fmt.Sprintf("watermark (operators from %d): %s", start, bad)
				}
			}
		}
		if !drew || kind == "tmark" && text != string(winBytes(given.Text)) {
			return fmt.Sprintf("watermark (operators from %d) shows %q, should show %q", start, text, given.Text)
		}
		return ""
	})
	return nil
}

// written checks a document that was written.
func (s *pbSession) written(data []byte) {
	t := s.t
	f, err := pdfx.ReadFile(data)
	if err == nil && s.pw != nil {
		if f.Trailer["Encrypt"] == nil {
			err = fmt.Errorf("not encrypted")
		} else {
			_, err = f.Unlock(s.pw)
		}
	}
	if err == nil {
		err = f.CheckAll()
	}
	var ps []pdfx.Page
	if err == nil {
		ps, err = f.Pages()
	}
	if err == nil {
		err = f.CheckRefs(f.Trailer)
	}
	if err != nil {
		t.FailBlob("written", data, "the document written: %v", err)
		return
	}
	if len(ps) != len(s.order) {
		t.FailBlob("pages", data, "%d pages, %d were finished", len(ps), len(s.order))
		return
	}
	for i, n := range s.order {
		p, pg := s.pages[n], ps[i]
		if box, _ := pg.D["MediaBox"].(pdfx.Arr); len(box) != 4 || !func() bool {
			v := fbNums(box)
			return v[0] == 0 && v[1] == 0 && v[2] == p.size.Width && v[3] == p.size.Height
		}() {
			t.FailBlob("media-box", data, "page %d has the box %s, should be %v", i+1, pdfx.Canon(pg.D["MediaBox"]), p.size)
		}
		x, _ := f.Deref(pg.D["Contents"])
		st, ok := x.(*pdfx.Stream)
		if !ok {
			t.FailBlob("content", data, "page %d has no content stream: %.300s", i+1, pdfx.Canon(pg.D))
			return
		}
		body, err := st.Decode()
		k := &pbCheck{f: f}
		if err == nil {
			k.ops, err = pdfx.Operators(body)
		}
		if err == nil {
			err = pdfx.Balanced(k.ops)
		}
		if err != nil {
			t.FailBlob("content", data, "page %d's content: %v: %.2000s", i+1, err, body)
			return
		}
		res, err := f.DictOf(pg.D["Resources"])
		if err != nil {
			t.FailBlob("content", data, "page %d's resources: %v", i+1, err)
			return
		}
		k.fonts, _ = f.DictOf(res["Font"])
		k.ims, _ = f.DictOf(res["XObject"])
		k.gs, _ = f.DictOf(res["ExtGState"])
		for _, want := range p.want {
			if bad := want(k); bad != "" {
				t.FailBlob("operators", data, "page %d: %s: %.1000s", i+1, bad, body)
				return
			}
		}
		if k.at != len(k.ops) {
			t.FailBlob("operators", data, "page %d has %d operators more than drawn: %.1000s", i+1, len(k.ops)-k.at, body)
			return
		}
		t.Count("operators_read", len(k.ops))
	}
	t.Count("pages_read", len(ps))
	t.Do("extract", data, func() {
		doc, err := extract.ExtractContent(data, s.pw, false)
		if err != nil {
			t.FailBlob("extract", data, "extracting: %v", err)
			return
		}
		if len(doc.Pages) != len(s.order) {
			t.FailBlob("extract", data, "%d pages extracted, %d were finished", len(doc.Pages), len(s.order))
			return
		}
		for i, n := range s.order {
			p, pg := s.pages[n], doc.Pages[i]
			if pg.Width != p.size.Width || pg.Height != p.size.Height || len(pg.Text) != len(p.shown) || len(pg.Images) != p.drawn {
				t.FailBlob("extract", data, "page %d was extracted with size %v x %v, %d texts and %d images; should be %v, %d and %d", i+1, pg.Width, pg.Height, len(pg.Text), len(pg.Images), p.size, len(p.shown), p.drawn)
				return
			}
			for j, w := range p.shown {
				e := pg.Text[j]
				if !w.any && e.Text != w.text || math.Abs(e.FontSize-w.size) > 6e-5 || w.font != "" && e.FontName != w.font {
					t.FailBlob("extract-text", data, "text %d of page %d was extracted as %q in %s at %v; should be %q in %s at %v", j+1, i+1, e.Text, e.FontName, e.FontSize, w.text, w.font, w.size)
					return
				}
			}
			t.Count("texts_extracted", len(p.shown))
		}
	})
}

func init() {
	props["P18"] = func(t *T) {
		var tr pbTrace
		t.JSON(&tr)
		r := t.R
		s := &pbSession{t: t, r: r, b: write.NewSimplePDFBuilder(), texts: []string{""}, plain: []string{""}, sizes: []float64{0}, fonts: []*pbFont{nil}, ims: []*pbImage{nil}, pages: []*pbPage{nil}}
		maxText, maxSize, maxFont := 1, 1, 5
		for _, st := range tr.Log {
			for _, v := range []int{st.X, st.Y} {
				if v > maxText {
					maxText = v
				}
			}
			if st.A == "font" || st.A == "Tf" || st.A == "say" {
				if st.X > maxFont {
					maxFont = st.X
				}
			}
			if st.A == "Tf" && st.Y > maxSize {
				maxSize = st.Y
			}
		}
		for i := 0; i < maxText; i++ {
			s.texts, s.plain = append(s.texts, pbText(r, r.Intn(3) == 0)), append(s.plain, pbText(r, true))
		}
		for i := 0; i < maxSize; i++ {
			s.sizes = append(s.sizes, []float64{12, 10.5, 8.25, float64(1 + r.Intn(100)), float64(1+r.Intn(100000)) / 1000}[r.Intn(5)])
		}
		std := []string{"Helvetica", "Times-Roman", "Courier", "Symbol", "ZapfDingbats", "Times-BoldItalic", "Courier-Oblique", "Helvetica-BoldOblique"}
		r.Shuffle(len(std), func(i, j int) { std[i], std[j] = std[j], std[i] })
		numStd := map[string]int{"text": 1, "marks": 1}[t.Tag]
		if numStd == 0 {
			numStd = 4
		}
		for i := 1; i <= numStd; i++ {
			f := &pbFont{std: true, name: std[i-1]}
			if i == 1 {
				f.name = "Helvetica-Bold"
			}
			f.symbols = f.name == "Symbol" || f.name == "ZapfDingbats"
			s.fonts = append(s.fonts, f)
		}
		for i := numStd + 1; i <= maxFont; i++ {
			f := &pbFont{texts: map[int]string{}}
			var chars []rune
			for _, text := range s.texts {
				chars = append(chars, []rune(text)...)
			}
			if r.Intn(2) == 0 {
				chars = append(chars, winChars...)
			}
			pbTTF(r, f, chars)
			var err error
			if !t.Do("font", f.data, func() { f.lib, err = font.NewFont([]string{"", "MyFont", "F1"}[r.Intn(3)], f.data) }) {
				return
			}
			if err != nil {
				t.FailBlob("font", f.data, "NewFont: %v", err)
				return
			}
			s.fonts = append(s.fonts, f)
		}
		w := s.b.Writer()
		if r.Intn(3) == 0 {
			w.UseXRefStream(true)
			w.UseObjectStream(r.Intn(2) == 0)
		}
		locked := -1
		if r.Intn(4) == 0 {
			locked = r.Intn(len(tr.Log))
		}
		names := []string{"Im1", "Im2", "/Im1", "", "a b", "X#20", "/p/q", "Logo", "é", "F1"}
		for i, st := range tr.Log {
			if i == locked {
				s.pw = []byte([]string{"", "pw"}[r.Intn(2)])
				if _, err := w.SetupEncryptionWithPasswords(s.pw, []byte("own"), -44, r.Intn(2) == 0); err != nil {
					t.Fail("encrypt", "SetupEncryptionWithPasswords: %v", err)
					return
				}
			}
			t.Steps++
			var p *pbPage
			if st.P > 0 && st.A != "new" {
				p = s.pages[st.P]
			}
			ok := t.Do(st.A, nil, func() {
				switch st.A {
				case "new":
					size := []write.PageSize{write.PageSizeA4, write.PageSizeLetter, {Width: 100.5, Height: 200.25}, {Width: 841.8898, Height: 595.2756}, {Width: 1 + float64(r.Intn(2000)), Height: 14400}, {Width: 0.123456, Height: 3}}[r.Intn(6)]
					p := &pbPage{size: size, fonts: map[int][]string{}, ims: map[int][]string{}}
					if r.Intn(2) == 0 {
						p.lib = s.b.AddPage(size)
					} else {
						p.lib = w.NewPageBuilder(size)
					}
					s.pages = append(s.pages, p)
				case "image":
					o := pbNewImage(r)
					name := names[r.Intn(len(names))]
					var err error
					if o.jpeg && (o.how != "jpeg" || r.Intn(2) == 0) {
						o.info, err = w.AddJPEGImage(o.data, name)
					} else {
						o.info, err = w.AddImage(o.data, name)
					}
					if err != nil || o.info.Width != o.w || o.info.Height != o.h {
						t.FailBlob("image", o.data, "adding an image (%s, %d x %d): %v, %+v", o.how, o.w, o.h, err, o.info)
						return
					}
					s.ims = append(s.ims, o)
					t.Count("images", 1)
				case "say":
					f := s.fonts[st.X]
					f.texts[st.Y] = s.texts[st.Y]
					if r.Intn(3) == 0 {
						for _, c := range s.texts[st.Y] {
							f.lib.AddRune(c)
						}
					} else {
						f.lib.AddString(s.texts[st.Y])
					}
				case "font":
					f := s.fonts[st.X]
					var name string
					var err error
					if f.std {
						name = p.lib.AddStandardFont(f.name)
					} else if name, err = p.lib.AddEmbeddedFont(f.lib); err != nil {
						t.FailBlob("font", f.data, "AddEmbeddedFont: %v", err)
						return
					}
					p.fonts[st.X] = append(p.fonts[st.X], name)
				case "use":
					p.ims[st.X] = append(p.ims[st.X], p.lib.AddImage(s.ims[st.X].info))
				case "finish":
					s.b.FinalizePage(p.lib)
					s.order = append(s.order, st.P)
					p.done = true
				case "tmark", "imark", "nomark":
					err := s.mark(p, st.A, st.X, st.Y)
					if bad := st.A == "nomark" || st.A == "imark" && st.Y == 1; bad != (err != nil) {
						t.Fail("watermark", "AddWatermark (%s, %d): %v", st.A, st.Y, err)
					}
					// the font of a text watermark is one of the page's
					if st.A == "tmark" && len(p.fonts[st.X]) == 0 {
						p.fonts[st.X] = append(p.fonts[st.X], p.lib.AddStandardFont(s.fonts[st.X].name))
					}
				case "Tj", "'", "hex", "TJ":
					sh := tr.Shows[st.P-1][len(p.shown)]
					var texts []string
					for _, n := range sh.T {
						texts = append(texts, s.text(sh.F, n))
					}
					s.show(p, st.A, texts)
					font := p.fonts[sh.F]
					name := font[0]
					if len(font) > 1 {
						name = "" // any of them
					}
					p.shown = append(p.shown, pbShown{strings.Join(texts, ""), name, s.sizes[sh.S], s.fonts[sh.F].symbols})
				case "write":
					data, err := s.b.Bytes()
					if err != nil {
						t.Fail("write", "Bytes: %v", err)
						return
					}
					s.written(data)
				default:
					s.draw(p, st.A, st.X, st.Y)
				}
			})
			if !ok || t.Failed() {
				return
			}
		}
		for i := range tr.Order {
			if i >= len(s.order) || s.order[i] != tr.Order[i] {
				panic("harness: the order of the pages")
			}
		}
	}
}
