package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/benedoc-inc/pdfer/core/encrypt"
	"github.com/benedoc-inc/pdfer/core/manipulate"
	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/types"
	"verif/harness/pdfx"
)

// P05: histories of CryptFilters.tla.

type cfOp struct {
	A   string   `json:"a"`
	N   int      `json:"n"`
	G   int      `json:"g"`
	K   string   `json:"k"`
	P   bool     `json:"p"`
	Cfg cryptCfg `json:"cfg"`
}

// cfObj is what an object must be: a dictionary, or one with stream data.
type cfObj struct {
	kind string
	num  int
	gen  int
	d    pdfx.Dict
	data []byte
}

// cfDoc is a document under test with the objects it must have.
type cfDoc struct {
	cryptDoc
	t           *T
	cfg         cryptCfg
	user, owner []byte
	objs        map[int]*cfObj
	page        pdfx.Obj
	root        pdfx.Ref
	content     []byte
	nums        *numberer
	marks       []string // text that must not be readable in the file
}

func plainCfg(c cryptCfg) bool { return c.V == 0 }

// text makes string or stream data of telling lengths.
func (d *cfDoc) bytes(max int) []byte {
	n := []int{0, 1, 5, 14, 15, 16, 17, 31, 32, 33, 47, 48, 64, 127, 128, 300}[d.r.Intn(16)]
	if n > max {
		n = max
	}
	b := make([]byte, n)
	switch d.r.Intn(4) {
	case 0:
		d.r.Read(b)
	case 1: // looks like padding
		c := byte(d.r.Intn(18))
		for i := range b {
			b[i] = c
		}
	case 2:
		for i := range b {
			b[i] = "()\\\r\n<>%"[d.r.Intn(8)]
		}
	default:
		for i := range b {
			b[i] = byte('a' + d.r.Intn(26))
		}
	}
	return b
}

func (d *cfDoc) mark() []byte {
	b := make([]byte, 20)
	for i := range b {
		b[i] = byte('A' + d.r.Intn(26))
	}
	return b
}

func (d *cfDoc) strings() pdfx.Dict {
	v := pdfx.Dict{"S": pdfx.Str(d.bytes(400))}
	m := d.mark()
	v["Mark"] = pdfx.Str(m)
	if d.r.Intn(2) == 0 {
		v["A"] = pdfx.Arr{pdfx.Str(d.bytes(400)), 1, pdfx.Name("N"), pdfx.Dict{"T": pdfx.Str(d.bytes(400)), "E": pdfx.Str("")}, pdfx.Null{}, true, pdfx.Arr{pdfx.Str(d.bytes(40))}}
	}
	if d.r.Intn(4) == 0 {
		v["Type"] = pdfx.Name([]string{"Sig", "Annot", "Catalog", "XRefs", "Metadata", "ObjStm"}[d.r.Intn(6)])
	}
	return v
}

func (d *cfDoc) make(kind string) *cfObj {
	o := &cfObj{kind: kind}
	if kind == "str" {
		o.d = d.strings()
		return o
	}
	o.d = pdfx.Dict{}
	if d.r.Intn(3) > 0 {
		o.d = d.strings()
		delete(o.d, "Type")
	}
	if kind == "meta" {
		o.d["Type"], o.d["Subtype"] = pdfx.Name("Metadata"), pdfx.Name("XML")
	}
	switch d.r.Intn(4) {
	case 0:
		o.data = d.bytes(400)
	case 1:
		o.data = bytes.Repeat(d.bytes(400), d.r.Intn(60))
	default:
		o.data = append(d.bytes(400), d.mark()...)
	}
	return o
}

// value is the object as stored, before encryption. Crypt filters exist from V 4.
func (d *cfDoc) value(o *cfObj) pdfx.Val {
	if o.kind == "str" {
		return o.d
	}
	v := pdfx.Dict{}
	for k, x := range o.d {
		v[k] = x
	}
	raw := o.data
	var fs pdfx.Arr
	var ps pdfx.Arr
	if d.cfg.V >= 4 && (o.kind == "cryptI" || o.kind == "cryptN") {
		fs = append(fs, pdfx.Name("Crypt"))
		switch {
		case o.kind == "cryptN":
			ps = append(ps, pdfx.Dict{"Name": pdfx.Name(altFilter), "Type": pdfx.Name("CryptFilterDecodeParms")})
		case d.r.Intn(2) == 0:
			ps = append(ps, pdfx.Dict{"Name": pdfx.Name("Identity")})
		default:
			ps = append(ps, pdfx.Null{}) // Identity is the default
		}
	}
	if d.r.Intn(3) == 0 {
		raw = pdfx.Deflate(raw)
		fs, ps = append(fs, pdfx.Name("FlateDecode")), append(ps, pdfx.Null{})
	} else if bytes.Contains(raw, []byte("endstream")) {
		raw = pdfx.Deflate(raw)
		fs, ps = append(fs, pdfx.Name("FlateDecode")), append(ps, pdfx.Null{})
	}
	if len(fs) == 1 && d.r.Intn(2) == 0 {
		v["Filter"] = fs[0]
		if _, null := ps[0].(pdfx.Null); !null {
			v["DecodeParms"] = ps[0]
		}
	} else if len(fs) > 0 {
		v["Filter"] = fs
		for _, p := range ps {
			if _, null := p.(pdfx.Null); !null {
				v["DecodeParms"] = ps
			}
		}
	}
	return &pdfx.Stream{D: v, Raw: raw}
}

func (d *cfDoc) pageObj() pdfx.Obj {
	props := pdfx.Dict{}
	for n, o := range d.objs {
		props[fmt.Sprintf("P%d", n)] = pdfx.Ref{N: o.num, G: o.gen}
	}
	p := d.page
	v := pdfx.Dict{}
	for k, x := range p.V.(pdfx.Dict) {
		v[k] = x
	}
	v["Resources"] = pdfx.Dict{"Properties": props}
	p.V = v
	return p
}

// start builds the document without further objects.
func (d *cfDoc) start() {
	objs, root, _ := cryptSkeleton(d.r, d.nums)
	d.root, d.page = root, objs[2]
	d.content = []byte("BT (secret) Tj ET")
	var enc *pdfx.Obj
	if d.c != nil && d.r.Intn(3) > 0 {
		enc = &pdfx.Obj{N: d.nums.get(), G: d.r.Intn(4) / 3, V: d.c.Dict()}
	}
	d.append([]string{"table", "xstm"}[d.r.Intn(2)], objs, root, enc, d.nums.max+200)
}

// fieldsOf gives an object's value without what its writer may choose.
func sansFilter(v pdfx.Val) (pdfx.Dict, []byte, error) {
	s, ok := v.(*pdfx.Stream)
	if !ok {
		d, _ := v.(pdfx.Dict)
		if d == nil {
			return nil, nil, fmt.Errorf("is %.100s", pdfx.Canon(v))
		}
		return d, nil, nil
	}
	b, err := s.Decode()
	d := pdfx.Dict{}
	for k, x := range s.D {
		if k != "Length" && k != "Filter" && k != "DecodeParms" {
			d[k] = x
		}
	}
	return d, b, err
}

func (o *cfObj) same(v pdfx.Val) error {
	if _, ok := v.(*pdfx.Stream); ok != (o.kind != "str") {
		return fmt.Errorf("is %.100s, a stream: %v", pdfx.Canon(v), ok)
	}
	g, b, err := sansFilter(v)
	if err != nil {
		return err
	}
	if pdfx.Canon(g) != pdfx.Canon(o.d) {
		return fmt.Errorf("has %.400q, should have %.400q", pdfx.Canon(g), pdfx.Canon(o.d))
	}
	if !bytes.Equal(b, o.data) {
		return fmt.Errorf("has data %.100q (%d bytes), should have %.100q (%d)", b, len(b), o.data, len(o.data))
	}
	return nil
}

// locate reads the document independently, checks it and notes where its
// objects are. An error is the document's fault.
func (d *cfDoc) locate(pw []byte, relocate bool) error {
	f, err := pdfx.ReadFile(d.data)
	if err != nil {
		return err
	}
	if _, has := f.Trailer["Encrypt"]; has == plainCfg(d.cfg) {
		return fmt.Errorf("trailer has /Encrypt: %v", has)
	}
	if !plainCfg(d.cfg) {
		c, err := f.Unlock(pw)
		if err != nil {
			return err
		}
		if relocate {
			d.c = c
		}
	} else {
		d.c = nil
	}
	pages, err := f.Pages()
	if err != nil {
		return err
	}
	if len(pages) != 1 {
		return fmt.Errorf("%d pages", len(pages))
	}
	v, err := f.Get(pages[0].Num)
	if err != nil {
		return err
	}
	pd, _ := v.(pdfx.Dict)
	if relocate {
		e := f.X[pages[0].Num]
		d.page = pdfx.Obj{N: pages[0].Num, V: pd}
		if e.Kind == 'n' {
			d.page.G = e.Gen
		}
		d.root, _ = f.Trailer["Root"].(pdfx.Ref)
	}
	res, err := f.DictOf(pd["Resources"])
	if err != nil {
		return err
	}
	pr, err := f.DictOf(res["Properties"])
	if err != nil {
		return err
	}
	for n, o := range d.objs {
		r, ok := pr[fmt.Sprintf("P%d", n)].(pdfx.Ref)
		if !ok {
			return fmt.Errorf("page lost the reference to object %d: %.200s", n, pdfx.Canon(pr))
		}
		if relocate {
			o.num, o.gen = r.N, r.G
		} else if o.num != r.N {
			panic("harness: reference moved")
		}
		v, err := f.Get(r.N)
		if err == nil {
			err = o.same(v)
		}
		if err != nil {
			return fmt.Errorf("%s object %d (%d %d R) %v", o.kind, n, r.N, r.G, err)
		}
	}
	v, err = f.Deref(pd["Contents"])
	if err == nil {
		if a, ok := v.(pdfx.Arr); ok && len(a) == 1 {
			v, err = f.Deref(a[0])
		}
	}
	if err == nil {
		if st, ok := v.(*pdfx.Stream); !ok {
			err = fmt.Errorf("page contents are %.100s", pdfx.Canon(v))
		} else {
			var b []byte
			if b, err = st.Decode(); err == nil && !bytes.Equal(bytes.TrimSpace(b), d.content) {
				err = fmt.Errorf("page contents are %.100q", b)
			}
		}
	}
	return err
}

// check reads the document with both readers and both passwords.
func (d *cfDoc) check(what string, byLib bool) {
	t := d.t
	for i, pw := range [][]byte{d.user, d.owner} {
		if i == 1 && plainCfg(d.cfg) {
			break
		}
		if i == 0 || d.r.Intn(3) == 0 {
			if err := d.locate(pw, byLib && i == 0); err != nil {
				if !byLib {
					panic(fmt.Sprintf("harness: %s: own document: %v", what, err))
				}
				t.FailBlob(what+"/independent", d.data, "%s %+v: an independent reader with password %d: %v", what, d.cfg, i, err)
				return
			}
		}
		t.Do("read", d.data, func() {
			var get func(n int) ([]byte, error)
			how := "PDF.GetObject"
			p, err := parse.OpenWithOptions(d.data, parse.ParseOptions{Password: pw, BytePerfect: d.r.Intn(4) == 0})
			if err != nil {
				t.FailBlob(what+"/open", d.data, "%s %+v: opening with password %d: %v", what, d.cfg, i, err)
				return
			}
			get = p.GetObject
			if d.r.Intn(3) == 0 {
				how = "parse.GetObject"
				var info *types.PDFEncryption
				if !plainCfg(d.cfg) {
					if _, info, err = encrypt.DecryptPDF(d.data, pw, false); err != nil {
						t.FailBlob(what+"/open", d.data, "%s %+v: DecryptPDF with password %d: %v", what, d.cfg, i, err)
						return
					}
				}
				get = func(n int) ([]byte, error) { return parse.GetObject(d.data, n, info, false) }
			}
			for _, n := range d.keys() {
				o := d.objs[n]
				b, err := get(o.num)
				var v pdfx.Val
				if err == nil {
					v, err = pdfx.ParseIndirect(b)
				}
				if err == nil {
					err = o.same(v)
				}
				if err != nil {
					t.FailBlob(what+"/content", d.data, "after %s, %+v: %s of %s object %d (%d %d R): %v", what, d.cfg, how, o.kind, n, o.num, o.gen, fmt.Errorf("%v (password %q)", err, pw))
					return
				}
				t.Count("values_compared", 1)
			}
		})
		if t.Failed() {
			return
		}
	}
	if byLib && !plainCfg(d.cfg) {
		for _, n := range d.keys() {
			o := d.objs[n]
			if m, ok := o.d["Mark"].(pdfx.Str); ok && d.cfg.Str != "Identity" && (bytes.Contains(d.data, m) || strings.Contains(strings.ToUpper(string(d.data)), fmt.Sprintf("%X", []byte(m)))) {
				t.FailBlob(what+"/clear", d.data, "after %s, %+v: the string %q is readable in the encrypted document", what, d.cfg, m)
				return
			}
			if o.kind == "stm" && d.cfg.Stm != "Identity" && len(o.data) >= 20 && bytes.Contains(d.data, o.data) {
				t.FailBlob(what+"/clear", d.data, "after %s, %+v: stream data %.40q is readable in the encrypted document", what, d.cfg, o.data)
				return
			}
		}
	}
}

func (d *cfDoc) keys() []int {
	var k []int
	for n := range d.objs {
		k = append(k, n)
	}
	sort.Ints(k)
	return k
}

func init() {
	props["P05"] = func(t *T) {
		var log []cfOp
		t.JSON(&log)
		r := t.R
		u := universe(r)
		pws := []string{"e", "a", "b", "u", "l", "lx", "m"}
		d := &cfDoc{t: t, objs: map[int]*cfObj{}, nums: newNumberer(r, []int{40, 40, 300, 70000}[r.Intn(4)])}
		if d.nums.max > 1000 && r.Intn(3) > 0 {
			d.nums.max = 400
		}
		d.r = r
		d.user, d.owner = u[pws[r.Intn(len(pws))]], u[pws[r.Intn(len(pws))]]
		for bytes.Equal(d.user, d.owner) || len(d.owner) == 0 {
			d.owner = u[pws[r.Intn(len(pws))]]
		}
		gens := []int{0, 1 + r.Intn(2), 255 + r.Intn(3), 65000 + r.Intn(535)}
		for _, op := range log {
			t.Steps++
			switch op.A {
			case "config":
				d.cfg = op.Cfg
				if !plainCfg(d.cfg) {
					d.c = newCrypt(r, d.cfg, d.user, d.owner)
				}
				d.start()
			case "define":
				o := d.make(op.K)
				if old := d.objs[op.N]; old != nil {
					o.num = old.num
				} else {
					o.num = d.nums.get()
				}
				o.gen = gens[op.G]
				if op.P {
					o.gen = 0
				}
				d.objs[op.N] = o
				v := d.value(o)
				objs := []pdfx.Obj{{N: o.num, G: o.gen, V: v, Packed: op.P}, d.pageObj()}
				if op.P && d.r.Intn(2) == 0 { // company in the object stream
					objs = append(objs, pdfx.Obj{N: d.nums.get(), V: d.strings(), Packed: true})
				}
				kind := "xstm"
				if !op.P && r.Intn(2) == 0 {
					kind = "table"
				}
				d.append(kind, objs, d.root, nil, d.nums.max+200)
				d.check("define", false)
			case "rebuild":
				if len(d.objs) == 0 {
					continue
				}
				t.Do("rebuild", d.data, func() {
					m, err := manipulate.NewPDFManipulator(d.data, [][]byte{d.user, d.owner}[r.Intn(2)], false)
					var out []byte
					if err == nil {
						if r.Intn(2) == 0 {
							err = m.RotatePage(1, 90)
						}
						if err == nil {
							out, err = m.Rebuild()
						}
					}
					if err != nil {
						t.FailBlob("rebuild", d.data, "rebuilding, %+v: %v", d.cfg, err)
						return
					}
					d.data = out
					d.check("rebuild", true)
				})
			case "extract":
				t.Do("extract", d.data, func() {
					pw := [][]byte{d.user, d.owner}[r.Intn(2)]
					var out []byte
					var err error
					switch r.Intn(3) {
					case 0:
						out, err = manipulate.ExtractPages(d.data, []int{1}, pw, false)
					case 1:
						var o [][]byte
						if o, err = manipulate.SplitPDFByPageCount(d.data, 1, pw, false); err == nil {
							out = o[0]
						}
					case 2:
						// (merging one document with itself would double the pages)
						out, err = manipulate.MergePDFs([][]byte{d.data}, [][]byte{pw}, false)
					}
					if err != nil {
						t.FailBlob("extract", d.data, "extracting, %+v: %v", d.cfg, err)
						return
					}
					d.cfg = op.Cfg
					d.data = out
					d.check("extract", true)
					for _, o := range d.objs {
						d.nums.used[o.num] = true
					}
				})
			case "write":
				t.Do("write", d.data, func() {
					d.cfg = op.Cfg
					d.c = nil
					d.write()
					if !t.Failed() {
						d.check("write", true)
					}
				})
			}
			if t.Failed() {
				return
			}
			if op.A == "rebuild" || op.A == "extract" || op.A == "write" {
				f, err := pdfx.ReadFile(d.data)
				if err != nil {
					panic("harness: checked document does not read")
				}
				for _, n := range f.Nums() {
					d.nums.used[n] = true
				}
				if r, ok := f.Trailer["Encrypt"].(pdfx.Ref); ok {
					d.nums.used[r.N] = true
				}
			}
		}
	}
}

// write writes the objects in a session of the library's writer with the
// document's configuration.
func (d *cfDoc) write() {
	t, r := d.t, d.r
	w := write.NewPDFWriter()
	if r.Intn(2) == 0 {
		w.UseXRefStream(true)
		w.UseObjectStream(r.Intn(2) == 0)
	}
	if d.cfg.V >= 4 {
		w.SetVersion("1.7")
	}
	d.nums = newNumberer(r, []int{40, 300}[r.Intn(2)])
	var enc func() error
	if !plainCfg(d.cfg) {
		if d.cfg.V == 5 && d.cfg.Stm == "AESV3" && d.cfg.Str == "AESV3" && r.Intn(2) == 0 && !d.has("cryptN") {
			enc = func() error {
				_, err := w.SetupEncryptionWithPasswords(d.user, d.owner, -44, d.cfg.Meta)
				return err
			}
		} else { // the encryption of another document
			tpl := &cryptDoc{r: r, c: newCrypt(r, d.cfg, d.user, d.owner)}
			objs, root, _ := cryptSkeleton(r, newNumberer(r, 20))
			n := 30 + r.Intn(3)
			e := &pdfx.Obj{N: n, V: tpl.c.Dict()}
			tpl.append([]string{"table", "xstm"}[r.Intn(2)], objs, root, e, 100)
			_, info, err := encrypt.DecryptPDF(tpl.data, [][]byte{d.user, d.owner}[r.Intn(2)], false)
			if err != nil {
				t.FailBlob("template", tpl.data, "DecryptPDF of a %+v document: %v", d.cfg, err)
				return
			}
			enc = func() error {
				w.SetEncryption(info, tpl.c.ID)
				w.SetEncryptRef(w.AddObject(pdfx.Write(tpl.c.Dict())))
				return nil
			}
		}
	}
	first := r.Intn(2) == 0
	if first && enc != nil {
		if err := enc(); err != nil {
			t.Fail("write", "setting up encryption %+v: %v", d.cfg, err)
			return
		}
	}
	for n := 1; n < w.NextObjectNumber(); n++ {
		d.nums.used[n] = true
	}
	skel, root, _ := cryptSkeleton(r, d.nums)
	d.page, d.root = skel[2], root
	for _, n := range d.keys() {
		o := d.objs[n]
		o.num, o.gen = d.nums.get(), 0
	}
	skel[2] = d.pageObj()
	put := func(n int, v pdfx.Val) {
		if s, ok := v.(*pdfx.Stream); ok {
			_, filtered := s.D["Filter"]
			w.SetStreamObject(n, toGo(r, s.D).(write.Dictionary), s.Raw, !filtered && r.Intn(2) == 0)
		} else {
			l := pdfx.RandLayout(r)
			w.SetObject(n, l.Style(v))
		}
	}
	for _, o := range skel {
		put(o.N, o.V)
	}
	for _, n := range d.keys() {
		put(d.objs[n].num, d.value1(d.objs[n]))
	}
	w.SetRoot(root.N)
	if !first && enc != nil {
		if err := enc(); err != nil {
			t.Fail("write", "setting up encryption %+v: %v", d.cfg, err)
			return
		}
	}
	out, err := w.Bytes()
	if err == nil && r.Intn(3) == 0 { // what is written again is the same document
		out, err = w.Bytes()
	}
	if err != nil {
		t.Fail("write", "writing, %+v: %v", d.cfg, err)
		return
	}
	d.data = out
}

// value1 keeps strings out of stream dictionaries: the writer takes those as
// bytes its caller has escaped, which P02 covers.
func (d *cfDoc) value1(o *cfObj) pdfx.Val {
	return d.value(o)
}

func (d *cfDoc) has(kind string) bool {
	for _, o := range d.objs {
		if o.kind == kind {
			return true
		}
	}
	return false
}

var _ = rand.Int
