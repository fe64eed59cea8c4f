package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"sort"

	"github.com/benedoc-inc/pdfer/content/extract"
	"github.com/benedoc-inc/pdfer/core/encrypt"
	"github.com/benedoc-inc/pdfer/core/manipulate"
	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/types"
	"verif/harness/pdfx"
)

// P04 / P05: documents of Passwords.tla and CryptFilters.tla, built by an
// independent implementation of the standard security handler.

// cryptCfg is a configuration of CryptFilters.tla.
type cryptCfg struct {
	V    int    `json:"v"`
	Stm  string `json:"stm"`
	Str  string `json:"str"`
	Alt  string `json:"alt"`
	Meta bool   `json:"meta"`
}

const altFilter = "Alt"

func newCrypt(r *rand.Rand, c cryptCfg, user, owner []byte) *pdfx.Crypt {
	x := &pdfx.Crypt{V: c.V, EncMeta: c.Meta, StmM: c.Stm, StrM: c.Str, CF: map[string]string{},
		LenInDict: r.Intn(2) == 0, CFLenBits: r.Intn(2) == 0, UnsignedP: r.Intn(4) == 0, ExplicitMeta: r.Intn(2) == 0, CFMoreEntries: r.Intn(2) == 0}
	x.P = []int32{-1, -4, -44, -3904, -1340, 0x7ffffffc, -2147483648}[r.Intn(7)]
	x.ID = make([]byte, []int{16, 16, 16, 8, 1, 33}[r.Intn(6)])
	r.Read(x.ID)
	switch c.V {
	case 1:
		x.R, x.N = 2+r.Intn(2), 5
	case 2:
		x.R, x.N = 3, []int{5, 7, 10, 13, 16, 16, 16}[r.Intn(7)]
	case 4:
		x.R, x.N = 4, 16
	case 5, 6:
		x.R, x.V, x.N = c.V, 5, 32
	}
	if x.V >= 4 && c.Alt != "" {
		x.CF[altFilter] = c.Alt
	}
	x.Setup(r, user, owner)
	return x
}

// handlerCfg is the configuration of a handler of Passwords.tla.
func handlerCfg(r *rand.Rand, h string) cryptCfg {
	meta := r.Intn(4) > 0
	switch h {
	case "R2", "R3v1":
		return cryptCfg{V: 1, Stm: "V2", Str: "V2", Meta: true}
	case "R3":
		return cryptCfg{V: 2, Stm: "V2", Str: "V2", Meta: true}
	case "R4rc4":
		return cryptCfg{V: 4, Stm: "V2", Str: "V2", Meta: meta}
	case "R4aes":
		return cryptCfg{V: 4, Stm: "AESV2", Str: "AESV2", Meta: meta}
	case "R5":
		return cryptCfg{V: 5, Stm: "AESV3", Str: "AESV3", Meta: meta}
	}
	return cryptCfg{V: 6, Stm: "AESV3", Str: "AESV3", Meta: meta}
}

const pwBytes = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 !()<>\\/\xe4\xf6\xff\x01\n"

// universe makes the concrete passwords the symbols of Passwords.tla stand for.
func universe(r *rand.Rand) map[string][]byte {
	rb := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = pwBytes[r.Intn(len(pwBytes))]
		}
		return b
	}
	cat := func(xs ...[]byte) []byte { return bytes.Join(xs, nil) }
	pad := pdfx.PadString()
	u := map[string][]byte{"e": {}}
	for {
		u["a"], u["b"] = rb(1+r.Intn(12)), rb(1+r.Intn(31))
		u["c"] = append([]byte(nil), u["a"]...)
		switch r.Intn(3) {
		case 0:
			u["c"][r.Intn(len(u["c"]))] ^= 1 << uint(r.Intn(8))
		case 1:
			u["c"] = append(u["c"], rb(1)...)
		case 2:
			u["c"] = append(rb(1), u["c"]...)
		}
		u["aP"] = cat(u["a"], pad[:32-len(u["a"])], rb(r.Intn(2)*r.Intn(20)))
		u["p"] = cat(pad, rb(r.Intn(2)*r.Intn(20)))
		u["l"] = rb(32)
		u["lx"] = cat(u["l"], rb(1+r.Intn(60)))
		u["m"] = cat(u["lx"], rb(127-len(u["lx"])))
		u["mx"] = cat(u["m"], rb(1+r.Intn(40)))
		u["m1"] = u["m"][:126]
		u["u"] = []byte([]string{"pässwörd", "пароль", "\x00\xff()\\", "密码", "\x00", "\r\n"}[r.Intn(6)])
		// distinct symbols must be distinct passwords
		seen := map[string]bool{}
		for _, b := range u {
			seen[string(b)] = true
		}
		l := map[string]bool{}
		for _, k := range []string{"e", "a", "b", "c", "l", "u"} {
			l[string(append(append([]byte(nil), u[k]...), pad...)[:32])] = true
		}
		if len(seen) == len(u) && len(l) == 6 {
			return u
		}
	}
}

// cryptDoc is an encrypted document under construction.
type cryptDoc struct {
	r    *rand.Rand
	c    *pdfx.Crypt // nil: not encrypted
	data []byte
}

// encFn gives the builder's hook; method "" means the default for the stream.
func (d *cryptDoc) encFn(v pdfx.Val) func(n, g int, b []byte, stream bool) []byte {
	c := d.c
	if c == nil {
		return func(n, g int, b []byte, stream bool) []byte { return b }
	}
	m := c.StmM
	if s, ok := v.(*pdfx.Stream); ok {
		m = c.StreamMethod(s.D)
	}
	seed := d.r.Int63() // the hook runs twice: the same bytes each time
	return func(n, g int, b []byte, stream bool) []byte {
		rr := rand.New(rand.NewSource(seed ^ int64(len(b))))
		if stream {
			return c.Encrypt(rr, m, n, g, b)
		}
		return c.Encrypt(rr, c.StrM, n, g, b)
	}
}

// append adds a revision to whatever bytes the document has.
func (d *cryptDoc) append(kind string, objs []pdfx.Obj, root pdfx.Ref, encRef *pdfx.Obj, next int) {
	l := pdfx.RandLayout(d.r)
	var b *pdfx.Builder
	var info *pdfx.Ref
	if len(d.data) == 0 {
		b = pdfx.NewBuilder("1.7", next)
		if d.c != nil {
			b.IDVal = pdfx.Arr{pdfx.Str(d.c.ID), pdfx.Str("other")}
			if encRef != nil {
				b.Encrypt = pdfx.Ref{N: encRef.N, G: encRef.G}
				objs = append(objs, *encRef)
			} else {
				b.Encrypt = d.c.Dict()
			}
		}
	} else {
		f, err := pdfx.ReadFile(d.data)
		if err != nil {
			panic("harness: " + err.Error())
		}
		size, _ := f.Trailer["Size"].(int)
		if next < size {
			next = size
		}
		b = pdfx.NewBuilder("1.7", next)
		b.Buf.Reset()
		b.Buf.Write(d.data)
		if n := len(d.data); d.data[n-1] != '\n' && d.data[n-1] != '\r' {
			b.Buf.WriteByte('\n')
		}
		b.All[size-1] = pdfx.Entry{}
		b.Prev = f.StartXRef
		b.Sections = append(b.Sections, pdfx.Section{})
		b.Encrypt = f.Trailer["Encrypt"]
		if i, ok := f.Trailer["Info"].(pdfx.Ref); ok {
			info = &i
		}
		if a, ok := f.Trailer["ID"].(pdfx.Arr); ok {
			b.IDVal = a
		}
	}
	for i := range objs {
		if objs[i].Enc == nil && (encRef == nil || objs[i].N != encRef.N) {
			v := objs[i].V
			if objs[i].Packed {
				v = nil
			}
			objs[i].Enc = d.encFn(v)
		}
	}
	b.Append(kind, objs, nil, root, info, l)
	d.data = append([]byte(nil), b.Buf.Bytes()...)
}

// skeleton is a one page document's objects; num hands out numbers.
func cryptSkeleton(r *rand.Rand, nums *numberer) (objs []pdfx.Obj, root pdfx.Ref, content int) {
	c, ps, p, s := nums.get(), nums.get(), nums.get(), nums.get()
	ref := func(n int) pdfx.Ref { return pdfx.Ref{N: n} }
	return []pdfx.Obj{
		{N: c, V: pdfx.Dict{"Type": pdfx.Name("Catalog"), "Pages": ref(ps), "Lang": pdfx.Str("en")}},
		{N: ps, V: pdfx.Dict{"Type": pdfx.Name("Pages"), "Kids": pdfx.Arr{ref(p)}, "Count": 1}},
		{N: p, V: pdfx.Dict{"Type": pdfx.Name("Page"), "Parent": ref(ps), "MediaBox": pdfx.Arr{0, 0, 612, 792}, "Contents": ref(s), "Resources": pdfx.Dict{}}},
		{N: s, V: &pdfx.Stream{D: pdfx.Dict{}, Raw: []byte("BT (secret) Tj ET")}},
	}, ref(c), s
}

type pwOp struct {
	A    string   `json:"a"`
	H    string   `json:"h"`
	U    string   `json:"u"`
	O    string   `json:"o"`
	Good []string `json:"good"`
}

func sym(m map[string][]byte) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

func init() {
	props["P04"] = func(t *T) {
		var log []pwOp
		t.JSON(&log)
		r := t.R
		u := universe(r)
		nums := newNumberer(r, 60)
		objs, root, _ := cryptSkeleton(r, nums)
		secret := nums.get()
		d := &cryptDoc{r: r}
		rev := 0
		text := func() pdfx.Str { return pdfx.Str(fmt.Sprintf("secret %d ()\\", rev)) }
		for _, op := range log {
			t.Steps++
			rev++
			switch op.A {
			case "make":
				c := newCrypt(r, handlerCfg(r, op.H), u[op.U], u[op.O])
				if op.H == "R2" {
					c.R = 2
				} else if op.H == "R3v1" {
					c.R = 3
				}
				c.Setup(r, u[op.U], u[op.O])
				d.c = c
				objs = append(objs, pdfx.Obj{N: secret, V: pdfx.Dict{"S": text()}})
				var enc *pdfx.Obj
				if r.Intn(3) > 0 {
					enc = &pdfx.Obj{N: nums.get(), G: r.Intn(4) / 3, V: c.Dict()}
				}
				d.append([]string{"table", "xstm"}[r.Intn(2)], objs, root, enc, 100)
			case "lib":
				w := write.NewPDFWriter()
				if r.Intn(2) == 0 {
					w.UseXRefStream(true)
					w.UseObjectStream(r.Intn(2) == 0)
				}
				meta := r.Intn(2) == 0
				var err error
				t.Do("write", nil, func() {
					for _, o := range objs {
						if s, ok := o.V.(*pdfx.Stream); ok {
							w.SetStreamObject(o.N, toGo(r, s.D).(write.Dictionary), s.Raw, r.Intn(2) == 0)
						} else {
							w.SetObject(o.N, pdfx.Write(o.V))
						}
					}
					w.SetObject(secret, pdfx.Write(pdfx.Dict{"S": text()}))
					w.SetRoot(root.N)
					if _, err = w.SetupEncryptionWithPasswords(u[op.U], u[op.O], -44, meta); err != nil {
						return
					}
					for k := r.Intn(3); k >= 0 && err == nil; k-- { // written once or more
						d.data, err = w.Bytes()
					}
				})
				if t.Failed() {
					return
				}
				if err != nil {
					t.Fail("write", "writing an encrypted document: %v", err)
					return
				}
				f, err := pdfx.ReadFile(d.data)
				if err == nil {
					d.c, err = f.Unlock(u[op.U])
				}
				if err != nil {
					t.FailBlob("lib/independent", d.data, "an independent reader with the user password on a document the library encrypted: %v", err)
					return
				}
				if f, err = pdfx.ReadFile(d.data); err == nil {
					o := op.O
					if o == "e" {
						o = op.U
					}
					_, err = f.Unlock(u[o])
				}
				if err != nil {
					t.FailBlob("lib/independent", d.data, "an independent reader with the owner password on a document the library encrypted: %v", err)
					return
				}
			case "update":
				d.append([]string{"table", "xstm"}[r.Intn(2)], []pdfx.Obj{{N: secret, V: pdfx.Dict{"S": text()}}}, root, nil, 0)
			case "rewrite":
				rev--
				good := contains1(op.Good, op.U)
				t.Do("rewrite", d.data, func() {
					m, err := manipulate.NewPDFManipulator(d.data, u[op.U], false)
					if (err == nil) != good {
						t.FailBlob("manipulator", d.data, "%s: manipulator with password %q (%q): %v; right password: %v", op.H, op.U, u[op.U], err, good)
						return
					}
					if err != nil {
						return
					}
					if err = m.RotatePage(1, 90); err == nil {
						var out []byte
						if out, err = m.Rebuild(); err == nil {
							d.data = out
						}
					}
					if err != nil {
						t.FailBlob("rewrite", d.data, "%s: rewriting: %v", op.H, err)
						return
					}
					f, err := pdfx.ReadFile(d.data)
					if err == nil {
						d.c, err = f.Unlock(u[op.U])
					}
					if err != nil {
						t.FailBlob("rewrite/independent", d.data, "%s: an independent reader on the rewritten document: %v", op.H, err)
						return
					}
					if root, _ = f.Trailer["Root"].(pdfx.Ref); root.N == 0 {
						t.FailBlob("rewrite/independent", d.data, "%s: rewritten document has no root", op.H)
					}
				})
			}
			if t.Failed() {
				return
			}
			t.tryAll(d.data, op, u, secret, text())
			if t.Failed() {
				return
			}
		}
	}
}

func contains1(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// tryAll opens a document with every password of the universe.
func (t *T) tryAll(data []byte, op pwOp, u map[string][]byte, secret int, want pdfx.Str) {
	for _, s := range sym(u) {
		pw := u[s]
		good := contains1(op.Good, s)
		what := fmt.Sprintf("%s document, after %s: password %s %q", op.H, op.A, s, pw)
		check := func(fn string, err error) {
			t.Count("passwords_tried", 1)
			switch {
			case good && err != nil:
				t.FailBlob(fn+"/refused", data, "%s is right, but %s: %v", what, fn, err)
			case !good && err == nil:
				t.FailBlob(fn+"/accepted", data, "%s is wrong, but %s accepts it", what, fn)
			case !good && !errors.Is(err, types.ErrWrongPassword):
				t.FailBlob(fn+"/class", data, "%s is wrong, but the error of %s is not a wrong password: %v", what, fn, err)
			}
		}
		slow := op.H == "R6" && t.R.Intn(3) > 0
		t.Do("OpenWithOptions", data, func() {
			p, err := parse.OpenWithOptions(data, parse.ParseOptions{Password: pw, BytePerfect: t.R.Intn(4) == 0})
			check("OpenWithOptions", err)
			if err != nil {
				if c, ok := types.GetErrorCode(err); !good && (!ok || c != types.ErrCodeWrongPassword) {
					t.FailBlob("OpenWithOptions/code", data, "%s is wrong, but the error's code is %q: %v", what, c, err)
				}
				return
			}
			if !good {
				return
			}
			b, err := p.GetObject(secret)
			var v pdfx.Val
			if err == nil {
				v, err = pdfx.ParseIndirect(b)
			}
			if err != nil || pdfx.Canon(v) != pdfx.Canon(pdfx.Dict{"S": want}) {
				t.FailBlob("OpenWithOptions/content", data, "%s: object %d is %q (%v), should hold %q", what, secret, b, err, want)
			}
		})
		if len(pw) == 0 {
			t.Do("Open", data, func() {
				_, err := parse.Open(data)
				check("Open", err)
			})
		}
		if !slow {
			t.Do("DecryptPDF", data, func() {
				_, _, err := encrypt.DecryptPDF(data, pw, false)
				check("DecryptPDF", err)
			})
			t.Do("NewPDFManipulator", data, func() {
				_, err := manipulate.NewPDFManipulator(data, pw, false)
				check("NewPDFManipulator", err)
			})
			if t.R.Intn(3) == 0 {
				t.Do("ExtractContent", data, func() {
					_, err := extract.ExtractContent(data, pw, false)
					check("ExtractContent", err)
				})
			}
		}
		if t.Failed() {
			return
		}
	}
}
