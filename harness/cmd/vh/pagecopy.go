package main

import (
	"encoding/json"
	"fmt"

	"github.com/benedoc-inc/pdfer/core/manipulate"
	"verif/harness/pdfx"
)

// P07: extraction, split and merge histories of GenPageCopy.tla.

type pcTrace struct {
	Trees []specTree `json:"trees"`
	Log   []struct {
		A   string          `json:"a"`
		X   json.RawMessage `json:"x"`
		Out [][][3]int      `json:"out"` // per result document, per page: source, leaf, rotation
	} `json:"log"`
}

// pcDoc is a document of the history: its bytes and its pages' identities.
type pcDoc struct {
	b    []byte
	f    *pdfx.File
	pg   []pdfx.Page
	desc string
}

type srcPage struct {
	d *pcDoc
	i int // page index in it
}

func openDoc(b []byte, desc string) (*pcDoc, error) {
	f, err := pdfx.ReadFile(b)
	if err != nil {
		return nil, err
	}
	if err := f.CheckAll(); err != nil {
		return nil, err
	}
	pg, err := f.Pages()
	if err != nil {
		return nil, err
	}
	return &pcDoc{b, f, pg, desc}, nil
}

func init() {
	props["P07"] = func(t *T) {
		var tr pcTrace
		t.JSON(&tr)
		r := t.R
		var docs []*pcDoc
		for i := range tr.Trees {
			gd := genTreeDoc(r, &tr.Trees[i], treeOpts{gens: true, decoys: true, tag: fmt.Sprintf("d%d", i+1)})
			d, err := openDoc(gd.serialise(r), fmt.Sprintf("source %d", i+1))
			if err != nil {
				panic("harness: " + err.Error())
			}
			docs = append(docs, d)
		}
		for step, op := range tr.Log {
			t.Steps++
			var args []json.RawMessage
			json.Unmarshal(op.X, &args)
			num := func(raw json.RawMessage) int {
				n := 0
				if json.Unmarshal(raw, &n) != nil {
					panic("harness: bad argument " + string(raw))
				}
				return n
			}
			var outs [][]byte
			var want [][]srcPage // what each result's pages come from
			var err error
			refused := false
			what := fmt.Sprintf("step %d: %s %s", step+1, op.A, op.X)
			one := func(b []byte, e error) {
				outs, err = [][]byte{b}, e
			}
			var blob []byte
			ok := t.Do(op.A, nil, func() {
				switch op.A {
				case "extract":
					d := docs[num(args[0])-1]
					blob = d.b
					var sel []int
					json.Unmarshal(args[1], &sel)
					var w []srcPage
					for _, p := range sel {
						w = append(w, srcPage{d, p - 1})
					}
					want = [][]srcPage{w}
					one(manipulate.ExtractPages(append([]byte(nil), d.b...), sel, nil, false))
				case "split":
					d := docs[num(args[0])-1]
					blob = d.b
					var rs [][2]int
					json.Unmarshal(args[1], &rs)
					var pr []manipulate.PageRange
					for _, x := range rs {
						pr = append(pr, manipulate.PageRange{Start: x[0], End: x[1]})
						var w []srcPage
						for p := x[0]; p <= x[1]; p++ {
							w = append(w, srcPage{d, p - 1})
						}
						want = append(want, w)
					}
					outs, err = manipulate.SplitPDF(append([]byte(nil), d.b...), pr, nil, false)
				case "splitby":
					d := docs[num(args[0])-1]
					blob = d.b
					n := num(args[1])
					for a := 0; a < len(d.pg); a += n {
						var w []srcPage
						for p := a; p < a+n && p < len(d.pg); p++ {
							w = append(w, srcPage{d, p})
						}
						want = append(want, w)
					}
					outs, err = manipulate.SplitPDFByPageCount(append([]byte(nil), d.b...), n, nil, false)
				case "merge":
					var list [][]byte
					var w []srcPage
					for _, a := range args {
						d := docs[num(a)-1]
						blob = d.b
						list = append(list, append([]byte(nil), d.b...))
						for p := range d.pg {
							w = append(w, srcPage{d, p})
						}
					}
					want = [][]srcPage{w}
					one(manipulate.MergePDFs(list, nil, false))
				default:
					refused = true
					d := docs[num(op.X)-1]
					blob = d.b
					n := len(d.pg)
					switch op.A {
					case "xhi":
						_, err = manipulate.ExtractPages(d.b, []int{1, []int{n + 1, 0, -1}[r.Intn(3)]}, nil, false)
					case "xnone":
						_, err = manipulate.ExtractPages(d.b, nil, nil, false)
					case "shi":
						_, err = manipulate.SplitPDF(d.b, []manipulate.PageRange{{Start: 1, End: 1}, {Start: r.Intn(2), End: n + 1}}, nil, false)
					case "srev":
						_, err = manipulate.SplitPDF(d.b, []manipulate.PageRange{{Start: 1, End: 1}, {Start: n - r.Intn(2), End: []int{n - 2, n - 3, 0, -1}[r.Intn(4)]}}, nil, false)
					case "by0":
						_, err = manipulate.SplitPDFByPageCount(d.b, -r.Intn(2), nil, false)
					default:
						panic("harness: op " + op.A)
					}
				}
			})
			if !ok {
				return
			}
			if refused {
				if err == nil {
					t.FailBlob("refuse", blob, "%s succeeded", what)
					return
				}
				continue
			}
			if err != nil {
				t.FailBlob(op.A, blob, "%s: %v", what, err)
				return
			}
			if len(outs) != len(op.Out) {
				t.FailBlob("results", blob, "%s: %d results, should be %d", what, len(outs), len(op.Out))
				return
			}
			for k, b := range outs {
				d, err := openDoc(b, what)
				if err != nil {
					t.FailBlob("malformed", b, "%s: result %d: %v", what, k+1, err)
					return
				}
				if len(d.pg) != len(op.Out[k]) {
					t.FailBlob("pages", b, "%s: result %d has %d pages, should have %d", what, k+1, len(d.pg), len(op.Out[k]))
					return
				}
				for i, p := range d.pg {
					w := op.Out[k][i]
					rv, _ := d.f.Deref(p.Inh["Rotate"])
					if rv == nil {
						rv = 0
					}
					if rv != w[2] {
						t.FailBlob("rotate", b, "%s: result %d page %d is rotated %v, should be %d", what, k+1, i+1, rv, w[2])
						return
					}
					c, err := pageContent(d.f, p.D)
					if err == nil && !contains(c, pageText(fmt.Sprintf("d%d", w[0]), w[1])) {
						err = fmt.Errorf("content is %.200q", c)
					}
					if err != nil {
						t.FailBlob("content", b, "%s: result %d page %d, should be page %d of document %d: %v", what, k+1, i+1, w[1], w[0], err)
						return
					}
				}
				if err := samePages(d, want[k]); err != nil {
					t.FailBlob("graph", b, "%s: result %d: %v", what, k+1, err)
					return
				}
				t.Count("documents_checked", 1)
				docs = append(docs, d)
			}
		}
	}
}

// samePages walks the pages of a result in step with the pages they come from.
func samePages(d *pcDoc, want []srcPage) error {
	// which source pages were taken
	taken := map[*pcDoc]map[int]bool{}
	frame := map[*pcDoc]map[int]bool{}
	for _, w := range want {
		if taken[w.d] == nil {
			taken[w.d] = map[int]bool{}
			fr := map[int]bool{}
			for _, p := range w.d.pg {
				fr[p.Num] = true
			}
			if rt, ok := w.d.f.Trailer["Root"].(pdfx.Ref); ok {
				fr[rt.N] = true
				cat, _ := w.d.f.DictOf(rt)
				var walk func(v pdfx.Val)
				walk = func(v pdfx.Val) {
					rf, ok := v.(pdfx.Ref)
					if !ok || fr[rf.N] {
						return
					}
					fr[rf.N] = true
					dd, _ := w.d.f.DictOf(rf)
					kv, _ := w.d.f.Deref(dd["Kids"])
					ka, _ := kv.(pdfx.Arr)
					for _, k := range ka {
						walk(k)
					}
				}
				walk(cat["Pages"])
			}
			frame[w.d] = fr
		}
		taken[w.d][w.d.pg[w.i].Num] = true
	}
	// result page object -> source pages it may stand for
	type pair struct {
		s   *pcDoc
		old int
		new int
	}
	pageOf := map[int]pair{}
	for i, w := range want {
		pageOf[d.pg[i].Num] = pair{w.d, w.d.pg[w.i].Num, d.pg[i].Num}
	}
	seen := map[pair]bool{}
	var same func(s *pcDoc, a, b pdfx.Val, path string) error
	same = func(s *pcDoc, a, b pdfx.Val, path string) error {
		if ar, ok := a.(pdfx.Ref); ok {
			if frame[s][ar.N] && !taken[s][ar.N] {
				if _, isNull := b.(pdfx.Null); isNull || b == nil {
					return nil
				}
				if br, ok := b.(pdfx.Ref); ok {
					if _, isPage := pageOf[br.N]; !isPage {
						return nil // some stand-in for what was left behind
					}
				}
				return fmt.Errorf("%s: reference to object %d, which was not taken, became %s", path, ar.N, pdfx.Canon(b))
			}
			br, ok := b.(pdfx.Ref)
			if !ok {
				v, err := s.f.Get(ar.N)
				if _, isNull := v.(pdfx.Null); err == nil && isNull {
					if _, isNull := b.(pdfx.Null); isNull {
						return nil
					}
				}
				return fmt.Errorf("%s: reference to object %d became %s", path, ar.N, pdfx.Canon(b))
			}
			if taken[s][ar.N] {
				p, ok := pageOf[br.N]
				if !ok || p.s != s || p.old != ar.N {
					return fmt.Errorf("%s: reference to page object %d leads to object %d, which is not a copy of that page", path, ar.N, br.N)
				}
				return nil
			}
			k := pair{s, ar.N, br.N}
			if seen[k] {
				return nil
			}
			seen[k] = true
			av, err := s.f.Get(ar.N)
			if err != nil {
				return err
			}
			bv, err := d.f.Get(br.N)
			if err != nil {
				return err
			}
			return same(s, av, bv, fmt.Sprintf("%s->%d(%d)", path, br.N, ar.N))
		}
		switch x := a.(type) {
		case pdfx.Arr:
			y, ok := b.(pdfx.Arr)
			if !ok || len(x) != len(y) {
				return fmt.Errorf("%s: %.200s became %.200s", path, pdfx.Canon(a), pdfx.Canon(b))
			}
			for i := range x {
				if err := same(s, x[i], y[i], fmt.Sprintf("%s[%d]", path, i)); err != nil {
					return err
				}
			}
			return nil
		case pdfx.Dict:
			y, ok := b.(pdfx.Dict)
			if !ok {
				return fmt.Errorf("%s: dictionary became %.200s", path, pdfx.Canon(b))
			}
			for k := range y {
				if _, ok := x[k]; !ok {
					return fmt.Errorf("%s: new key /%s", path, k)
				}
			}
			for k := range x {
				if err := same(s, orNull(x[k]), orNull(y[k]), path+"/"+k); err != nil {
					return err
				}
			}
			return nil
		case *pdfx.Stream:
			y, ok := b.(*pdfx.Stream)
			if !ok {
				return fmt.Errorf("%s: stream became %T", path, b)
			}
			na, nb := normVal(x).(*pdfx.Stream), normVal(y).(*pdfx.Stream)
			if string(na.Raw) != string(nb.Raw) {
				return fmt.Errorf("%s: stream data differ: %.100q became %.100q", path, na.Raw, nb.Raw)
			}
			da, db := pdfx.Dict{}, pdfx.Dict{}
			for k, v := range x.D {
				if k != "Length" && k != "Filter" && k != "DecodeParms" {
					da[k] = v
				}
			}
			for k, v := range y.D {
				if k != "Length" && k != "Filter" && k != "DecodeParms" {
					db[k] = v
				}
			}
			return same(s, da, db, path)
		}
		if pdfx.Canon(a) != pdfx.Canon(b) {
			return fmt.Errorf("%s: %.200s became %.200s", path, pdfx.Canon(a), pdfx.Canon(b))
		}
		return nil
	}
	for i, w := range want {
		eff := func(p pdfx.Page) pdfx.Dict {
			o := pdfx.Dict{}
			for k, v := range p.D {
				o[k] = v
			}
			for k, v := range p.Inh {
				o[k] = v
			}
			delete(o, "Parent")
			delete(o, "Rotate") // compared with the specification
			return o
		}
		if err := same(w.d, eff(w.d.pg[w.i]), eff(d.pg[i]), fmt.Sprintf("page %d", i+1)); err != nil {
			return err
		}
	}
	return nil
}

func orNull(v pdfx.Val) pdfx.Val {
	if v == nil {
		return pdfx.Null{}
	}
	return v
}
