package main

import (
	"fmt"
	"strings"

	"github.com/benedoc-inc/pdfer/core/manipulate"
	"verif/harness/pdfx"
)

// P06: edit histories of PageTree.tla replayed into a PDFManipulator.

type ptTrace struct {
	Tree specTree `json:"tree"`
	Log  []struct {
		A    string `json:"a"`
		I    int    `json:"i"`
		X    int    `json:"x"`
		S    []int  `json:"s"`
		List []struct {
			ID  int `json:"id"`
			Rot int `json:"rot"`
		} `json:"list"`
	} `json:"log"`
}

func init() {
	props["P06"] = func(t *T) {
		var tr ptTrace
		t.JSON(&tr)
		r := t.R
		d := genTreeDoc(r, &tr.Tree, treeOpts{gens: true, decoys: true, tag: "p06"})
		src := d.serialise(r)
		orig, err := pdfx.ReadFile(src)
		if err != nil {
			panic("harness: " + err.Error())
		}
		want := map[int]string{} // object number -> expected value (page tree nodes without what edits may change)
		inh := map[int]pdfx.Dict{}
		ps, _ := orig.Pages()
		pageOf := map[int]int{} // object number -> spec id
		for id, n := range d.num {
			pageOf[n] = id
		}
		for _, p := range ps {
			inh[pageOf[p.Num]] = p.Inh
		}
		trimNode := func(v pdfx.Val) string {
			o := pdfx.Dict{}
			dd, ok := v.(pdfx.Dict)
			if !ok {
				return norm(v)
			}
			for k, x := range dd {
				if k != "Kids" && k != "Count" && k != "Rotate" && k != "Parent" {
					o[k] = x
				}
			}
			return norm(o)
		}
		for n, v := range d.objs {
			if _, ok := pageOf[n]; ok {
				want[n] = trimNode(v)
			} else {
				want[n] = norm(v)
			}
		}
		t.Do("manipulate", src, func() {
			m, err := manipulate.NewPDFManipulator(append([]byte(nil), src...), nil, false)
			if err != nil {
				t.FailBlob("open", src, "%v", err)
				return
			}
			fresh := 400
			check := func(step int) []byte {
				out, err := m.Rebuild()
				if err != nil {
					t.FailBlob("rebuild", src, "after edit %d: %v", step, err)
					return nil
				}
				f, err := pdfx.ReadFile(out)
				if err == nil {
					_, err = f.Pages()
				}
				if err != nil {
					t.FailBlob("malformed", out, "after edit %d (%s): %v", step, tr.describe(step), err)
					return nil
				}
				pages, _ := f.Pages()
				list := tr.Log[step-1].List
				if len(pages) != len(list) {
					t.FailBlob("pages", out, "after edit %d (%s): %d pages, should be %d", step, tr.describe(step), len(pages), len(list))
					return nil
				}
				for i, p := range pages {
					w := list[i]
					if pageOf[p.Num] != w.ID {
						t.FailBlob("pages", out, "after edit %d (%s): page %d is %d, should be %d", step, tr.describe(step), i+1, pageOf[p.Num], w.ID)
						return nil
					}
					rv, err := f.Deref(p.Inh["Rotate"])
					if err != nil {
						t.FailBlob("rotate", out, "after edit %d: page %d: %v", step, i+1, err)
						return nil
					}
					if rv == nil {
						rv = 0
					}
					if rv != w.Rot {
						t.FailBlob("rotate", out, "after edit %d (%s): page %d is rotated %v, should be %d", step, tr.describe(step), i+1, rv, w.Rot)
						return nil
					}
					for _, k := range []string{"MediaBox", "CropBox", "Resources"} {
						if norm(p.Inh[k]) != norm(inh[w.ID][k]) {
							t.FailBlob("inherited", out, "after edit %d (%s): page %d has %s %s, should be %s", step, tr.describe(step), i+1, k, norm(p.Inh[k]), norm(inh[w.ID][k]))
							return nil
						}
					}
				}
				live := map[int]bool{}
				for _, w := range list {
					live[d.num[w.ID]] = true
				}
				for n, w := range want {
					if id, isNode := pageOf[n]; isNode && id < treeRoot && !live[n] {
						continue // a deleted page
					}
					v, err := f.Get(n)
					if err != nil {
						t.FailBlob("object", out, "after edit %d (%s): object %d: %v", step, tr.describe(step), n, err)
						return nil
					}
					var got string
					if id, isNode := pageOf[n]; isNode {
						if _, gone := v.(pdfx.Null); gone && id > treeRoot {
							continue // a Pages node left empty
						}
						got = trimNode(v)
					} else {
						got = norm(v)
					}
					if got != w {
						t.FailBlob("object", out, "after edit %d (%s): object %d is %.300s, should be %.300s", step, tr.describe(step), n, got, w)
						return nil
					}
				}
				rt, ok := f.Trailer["Root"].(pdfx.Ref)
				if !ok || rt.N != d.root.N {
					t.FailBlob("root", out, "after edit %d: root %v", step, f.Trailer["Root"])
				}
				if it, ok := f.Trailer["Info"].(pdfx.Ref); ok != (d.info != nil) || (ok && it.N != d.info.N) {
					t.FailBlob("info", out, "after edit %d: info %v", step, f.Trailer["Info"])
				}
				if !strings.HasPrefix(string(out), "%PDF-"+d.version) {
					t.FailBlob("version", out, "after edit %d: header %.9q, source is %s", step, out, d.version)
				}
				t.Count("rebuilds_checked", 1)
				return out
			}
			for i, op := range tr.Log {
				t.Steps++
				var err error
				refused := false
				n := 0
				if i > 0 {
					n = len(tr.Log[i-1].List)
				} else {
					n = len(ps)
				}
				switch op.A {
				case "rotate":
					err = m.RotatePage(op.I, op.X)
				case "rotateAll":
					err = m.RotateAllPages(op.X)
				case "delete":
					if len(op.S) == 1 && r.Intn(3) > 0 {
						err = m.DeletePage(op.S[0])
					} else {
						s := append([]int(nil), op.S...)
						r.Shuffle(len(s), func(a, b int) { s[a], s[b] = s[b], s[a] })
						err = m.DeletePages(s)
					}
				case "insert":
					// the new page is the one in this list the previous did not have
					id := op.List[op.I-1].ID
					fresh += 1 + r.Intn(3)
					v := pdfx.Dict{"Type": pdfx.Name("Page"), "Rotate": op.X, "MediaBox": box(r), "CropBox": box(r), "Resources": pdfx.Dict{"X": id},
						"Note": pdfx.Str(fmt.Sprintf("inserted %d /Parent 1 0 R", id))}
					if r.Intn(2) == 0 {
						v["Parent"] = pdfx.Ref{N: 3}
					}
					d.num[id] = fresh
					pageOf[fresh] = id
					inh[id] = pdfx.Dict{"MediaBox": v["MediaBox"], "CropBox": v["CropBox"], "Resources": v["Resources"]}
					want[fresh] = trimNode(v)
					l := pdfx.RandLayout(r)
					pos := op.I
					if pos == n+1 && r.Intn(2) == 0 {
						pos = 0
					}
					err = m.InsertPage(pos, fresh, l.Style(v))
				case "rotate0":
					refused = true
					err = m.RotatePage(0, 90)
				case "rotateHi":
					refused = true
					err = m.RotatePage(n+1, 90)
				case "angle":
					refused = true
					bad := []int{0, 45, -90, 360, 91, 450}[r.Intn(6)]
					if r.Intn(2) == 0 {
						err = m.RotatePage(1, bad)
					} else {
						err = m.RotateAllPages(bad)
					}
				case "deleteHi":
					refused = true
					if r.Intn(2) == 0 {
						err = m.DeletePage([]int{n + 1, 0, -1}[r.Intn(3)])
					} else {
						err = m.DeletePages([]int{1, n + 1})
					}
				case "deleteAll":
					refused = true
					all := []int{}
					for k := 1; k <= n; k++ {
						all = append(all, k)
					}
					if n == 1 && r.Intn(2) == 0 {
						err = m.DeletePage(1)
					} else {
						err = m.DeletePages(all)
					}
				case "insertHi":
					refused = true
					err = m.InsertPage([]int{n + 2, -1}[r.Intn(2)], 999, []byte("<</Type/Page/Rotate 0>>"))
				case "insertUsed":
					refused = true
					err = m.InsertPage(1, d.objsAny(r.Intn(1000)), []byte("<</Type/Page/Rotate 0>>"))
				default:
					panic("harness: op " + op.A)
				}
				if refused && err == nil {
					t.FailBlob("refuse", src, "edit %d (%s) on %d pages succeeded", i+1, op.A, n)
					return
				}
				if !refused && err != nil {
					t.FailBlob("edit", src, "edit %d (%s): %v", i+1, tr.describe(i+1), err)
					return
				}
				if i == len(tr.Log)-1 || r.Intn(3) == 0 {
					out := check(i + 1)
					if t.Failed() {
						return
					}
					if r.Intn(3) == 0 {
						if m, err = manipulate.NewPDFManipulator(out, nil, false); err != nil {
							t.FailBlob("open", out, "reopening after edit %d: %v", i+1, err)
							return
						}
					}
				}
			}
		})
	}
}

func (d *genDoc) objsAny(k int) int { return d.order[k%len(d.order)] }

func (tr *ptTrace) describe(step int) string {
	op := tr.Log[step-1]
	return fmt.Sprintf("%s i=%d x=%d s=%v", op.A, op.I, op.X, op.S)
}
