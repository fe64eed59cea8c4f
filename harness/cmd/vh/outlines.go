package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/benedoc-inc/pdfer/content/extract"
	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/types"
	"verif/harness/pdfx"
)

// P09: outlines of Outlines.tla, read from documents and written by the library.

func init() { props["P09"] = outlineReplay }

var textBits = []string{
	"Chapter ", "(", ")", "\\", "((", "))", "\\(", "\\n", "\n", "\r", "\r\n", "\t", "<<", ">>", "endobj", " stream\n", "/Next 3 0 R", "5 0 R", " R", "/Title (x)",
	"ä", "é", "ß", "–", "“quoted”", "€", "Ł", "ﬁ", "中文", "日本", "😀", "Ω", "ё", "\u00a0", "\u0100", "\u2028", "þÿ", "ÿþ", "ï»¿", "%", "#20", "\u0a28", "\u285c", "\u0d0a", "\x7f", "\u00ad",
	"1", "a", "B", " ", "  ", "-", "'", "\"", "&", "]", "[", "{", "}", "~", "*",
}

// randText gives text of every kind, empty rarely.
func randText(r *rand.Rand) string {
	switch r.Intn(12) {
	case 0, 1, 2:
		return fmt.Sprintf("Section %d.%d", r.Intn(10), r.Intn(10))
	case 3:
		return []string{"", " ", "(", ")", "\\", "a\\", "x R", "/x", "(x)", "<41>", "þÿab", "D:2020"}[r.Intn(12)]
	case 4:
		b := make([]rune, 1+r.Intn(30))
		for i := range b {
			b[i] = rune(0x20 + r.Intn(0x5f))
		}
		return string(b)
	case 5:
		b := make([]rune, 1+r.Intn(12))
		for i := range b {
			b[i] = rune(0xa1 + r.Intn(0x2f00))
		}
		return string(b)
	case 6:
		return strings.Repeat(textBits[r.Intn(len(textBits))], 1+r.Intn(200))
	}
	var s string
	for i := 1 + r.Intn(6); i > 0; i-- {
		s += textBits[r.Intn(len(textBits))]
	}
	return s
}

// textStr encodes text in one of the ways a document may.
func textStr(r *rand.Rand, s string) pdfx.Str {
	if b, ok := pdfx.DocEncode(s); ok && r.Intn(3) > 0 {
		return pdfx.Str(b)
	}
	if r.Intn(4) == 0 {
		return pdfx.Str("\xef\xbb\xbf" + s)
	}
	return pdfx.Str(pdfx.UTF16(s))
}

type olNode struct {
	ID   int       `json:"id"`
	Kids []*olNode `json:"kids"`
}

type olTrace struct {
	Tree   []*olNode       `json:"tree"`
	Open   []int           `json:"open"`
	Heap   [][7]int        `json:"heap"` // id, up, first, last, prev, next, count
	Damage [][]interface{} `json:"damage"`
	Read   []*olNode       `json:"read"`
	Files  []struct {
		Cat   int       `json:"cat"`
		Marks []*olNode `json:"marks"`
	} `json:"files"`
	Log []struct {
		A string    `json:"a"`
		M []*olNode `json:"m"`
	} `json:"log"`
}

// olItem is what an item says.
type olItem struct {
	title, kind, dest, uri string
	page                   int
}

func randItem(r *rand.Rand, pages int) olItem {
	it := olItem{title: randText(r), kind: []string{"none", "page", "page", "page", "name", "text", "uri", "array"}[r.Intn(8)]}
	it.page = 1 + r.Intn(pages)
	switch it.kind {
	case "name":
		it.dest = "/" + []string{"Chap1", "x", "a.b", "G1-2"}[r.Intn(4)]
	case "text":
		for it.dest == "" || it.dest[0] == '/' || it.dest[0] == '[' {
			it.dest = randText(r)
		}
	case "uri":
		it.uri = []string{"http://example.org/a(b)c", "https://x.y/?q=1&r=(", "mailto:a@b.c", "http://x/\\y)", "http://e.org/%20#f"}[r.Intn(5)]
	}
	return it
}

func olSame(t *T, src []byte, got []types.Bookmark, want []*olNode, items map[int]*olItem, path string) {
	if len(got) != len(want) {
		t.FailBlob("shape", src, "%s has %d items, should have %d", path, len(got), len(want))
		return
	}
	for i, g := range got {
		w := items[want[i].ID]
		at := fmt.Sprintf("%s.%d", path, i+1)
		if g.Title != w.title {
			t.FailBlob("title", src, "%s: title %q, should be %q", at, g.Title, w.title)
		}
		page, uri := 0, ""
		switch w.kind {
		case "page":
			page = w.page
		case "uri":
			uri = w.uri
		}
		if g.PageNumber != page && w.kind != "array" {
			t.FailBlob("page", src, "%s (%s): page %d, should be %d", at, w.kind, g.PageNumber, page)
		}
		if g.URI != uri {
			t.FailBlob("uri", src, "%s (%s): URI %q, should be %q", at, w.kind, g.URI, uri)
		}
		switch w.kind {
		case "name", "text":
			if g.Destination != w.dest {
				t.FailBlob("dest", src, "%s: destination %q, should be %q", at, g.Destination, w.dest)
			}
		case "array":
			v, err := pdfx.Parse([]byte(g.Destination))
			x, _ := pdfx.Parse([]byte(w.dest))
			if err != nil || pdfx.Canon(v) != pdfx.Canon(x) {
				t.FailBlob("dest", src, "%s: destination %q, should be %q", at, g.Destination, w.dest)
			}
		case "none", "uri":
			if g.Destination != "" {
				t.FailBlob("dest", src, "%s (%s): destination %q, should have none", at, w.kind, g.Destination)
			}
		}
		t.Count("items", 1)
		olSame(t, src, g.Children, want[i].Kids, items, at)
	}
}

func olMarks(t *T, src []byte, pw []byte) ([]types.Bookmark, bool) {
	p, err := parse.OpenWithOptions(src, parse.ParseOptions{Password: pw})
	if err != nil {
		t.FailBlob("open", src, "%v", err)
		return nil, false
	}
	marks, err := extract.ExtractBookmarks(src, p, false)
	if err != nil {
		t.FailBlob("extract", src, "%v", err)
		return nil, false
	}
	if t.R.Intn(3) == 0 {
		doc, err := extract.ExtractContent(src, pw, false)
		if err != nil {
			t.FailBlob("extract", src, "ExtractContent: %v", err)
		} else if fmt.Sprint(doc.Bookmarks) != fmt.Sprint(marks) {
			t.FailBlob("extract", src, "ExtractContent and ExtractBookmarks differ: %v and %v", doc.Bookmarks, marks)
		}
	}
	return marks, true
}

func outlineReplay(t *T) {
	var c olTrace
	t.JSON(&c)
	t.Steps = len(c.Heap) + len(c.Log)
	if len(c.Tree) > 0 {
		olRead(t, &c)
	}
	if !t.Failed() && len(c.Tree) > 0 && len(c.Damage) == 0 && len(c.Log) == 0 {
		s := c
		s.Log = append(s.Log, struct {
			A string    `json:"a"`
			M []*olNode `json:"m"`
		}{"marks", c.Tree})
		for _, a := range []string{"cat", "root", "save"} {
			e := s.Log[0]
			e.A = a
			s.Log = append(s.Log, e)
		}
		s.Files = append(s.Files, struct {
			Cat   int       `json:"cat"`
			Marks []*olNode `json:"marks"`
		}{1, c.Tree})
		if t.R.Intn(2) == 0 {
			s.Log[0], s.Log[2] = s.Log[2], s.Log[0]
		}
		if t.R.Intn(2) == 0 {
			s.Log[1], s.Log[2] = s.Log[2], s.Log[1]
		}
		c = s
	}
	if !t.Failed() && len(c.Files) > 0 {
		olWrite(t, &c)
	}
}

// olRead builds a document with the heap as it is and extracts its outlines.
func olRead(t *T, c *olTrace) {
	r := t.R
	tr := &specTree{}
	leaf, inner := 0, treeRoot
	for todo := []int{treeRoot}; len(todo) > 0; todo = todo[1:] {
		var ks []interface{}
		for i := 1 + r.Intn(3); i > 0; i-- {
			if inner < treeRoot+3 && r.Intn(4) == 0 {
				inner++
				ks = append(ks, float64(inner))
				todo = append(todo, inner)
			} else {
				leaf++
				ks = append(ks, float64(leaf))
			}
		}
		tr.Kids = append(tr.Kids, [2]interface{}{float64(todo[0]), ks})
	}
	d := genTreeDoc(r, tr, treeOpts{gens: true, decoys: r.Intn(2) == 0, tag: "o"})
	var order []int // page order
	kids := tr.kids()
	var walk func(n int)
	walk = func(n int) {
		if n < treeRoot {
			order = append(order, n)
		}
		for _, k := range kids[n] {
			walk(k)
		}
	}
	walk(treeRoot)
	pageRef := func(i int) pdfx.Ref { n := d.num[order[i-1]]; return pdfx.Ref{N: n, G: d.gens[n]} }

	maybe := func(v pdfx.Val) pdfx.Val {
		if r.Intn(4) == 0 {
			return d.add(v)
		}
		return v
	}
	items := map[int]*olItem{}
	ref := map[int]pdfx.Ref{-1: {}}
	for _, h := range c.Heap {
		ref[h[0]] = d.reserve(r)
	}
	foreign := pdfx.Arr{0, pdfx.Name("Fit")} // a page of another file
	for _, h := range c.Heap {
		v := pdfx.Dict{}
		for i, k := range []string{"Parent", "First", "Last", "Prev", "Next"} {
			if h[i+1] >= 0 {
				v[k] = ref[h[i+1]]
			}
		}
		if h[6] != 0 || r.Intn(4) == 0 {
			v["Count"] = h[6]
		}
		if h[0] == 0 {
			if r.Intn(2) == 0 {
				v["Type"] = pdfx.Name("Outlines")
			}
			d.set(ref[0].N, v)
			continue
		}
		it := randItem(r, len(order))
		items[h[0]] = &it
		v["Title"] = maybe(textStr(r, it.title))
		fit := []pdfx.Arr{{pdfx.Name("Fit")}, {pdfx.Name("XYZ"), 0, 792, pdfx.Null{}}, {pdfx.Name("FitR"), 1, pdfx.Real(2.5), 3, 4}, {pdfx.Name("FitH"), pdfx.Null{}}}[r.Intn(4)]
		var target pdfx.Val
		switch it.kind {
		case "page":
			target = maybe(append(pdfx.Arr{pageRef(it.page)}, fit...))
		case "array":
			// a destination that is no page of this document
			a := append(pdfx.Arr{ref[0]}, fit...)
			it.dest = string(pdfx.Write(a))
			target = a
		case "name":
			target = maybe(pdfx.Name(it.dest[1:]))
		case "text":
			target = maybe(textStr(r, it.dest))
		case "uri":
			v["A"] = maybe(pdfx.Dict{"S": pdfx.Name("URI"), "URI": maybe(pdfx.Str(it.uri))})
		case "none":
			if r.Intn(3) == 0 {
				v["A"] = pdfx.Dict{"S": pdfx.Name("GoToR"), "F": pdfx.Str("other.pdf"), "D": foreign}
			}
		}
		if target != nil && r.Intn(2) == 0 {
			v["Dest"] = target
		} else if target != nil {
			v["A"] = maybe(pdfx.Dict{"Type": pdfx.Name("Action"), "S": pdfx.Name("GoTo"), "D": target})
		}
		if r.Intn(4) == 0 {
			v["C"] = pdfx.Arr{1, 0, pdfx.Real(.5)}
			v["F"] = r.Intn(4)
		}
		if r.Intn(6) == 0 {
			v["FirstX"], v["TitleB"] = ref[h[0]], pdfx.Str("/Title (no) /Next 1 0 R")
			v["AAA"] = pdfx.Dict{"Title": pdfx.Str("no"), "Next": ref[h[0]], "First": ref[h[0]], "Dest": pdfx.Arr{pageRef(1), pdfx.Name("Fit")}}
		}
		d.set(ref[h[0]].N, v)
	}
	cat := d.objs[d.root.N].(pdfx.Dict)
	cat["Outlines"] = ref[0]
	d.set(d.root.N, cat)
	src := d.serialise(r)

	t.Do("read", src, func() {
		if len(c.Damage) > 0 {
			p, err := parse.Open(src)
			if err != nil {
				t.FailBlob("open", src, "%v", err)
				return
			}
			marks, _ := extract.ExtractBookmarks(src, p, false)
			n := 0
			var count func(m []types.Bookmark)
			count = func(m []types.Bookmark) {
				for _, x := range m {
					n++
					count(x.Children)
				}
			}
			count(marks)
			t.Count("damaged", 1)
			if n > 64*len(c.Heap) {
				t.FailBlob("endless", src, "%d items from %d", n, len(c.Heap)-1)
			}
			return
		}
		if marks, ok := olMarks(t, src, nil); ok {
			olSame(t, src, marks, c.Tree, items, "root")
		}
	})
}

// olWrite replays a session of an application that writes bookmarks.
func olWrite(t *T, c *olTrace) {
	r := t.R
	w := write.NewPDFWriter()
	if r.Intn(3) == 0 {
		w.UseXRefStream(true)
	}
	if r.Intn(3) == 0 {
		w.UseObjectStream(true)
	}
	want := map[int]pdfx.Val{}
	set := func(n int, v pdfx.Val) {
		raw := pdfx.Write(v)
		if r.Intn(2) == 0 {
			l := pdfx.RandLayout(r)
			raw = l.Style(v)
		}
		w.SetObject(n, raw)
		want[n] = v
	}
	var pw []byte
	if r.Intn(5) == 0 {
		pw = []byte("pw(é")
		if _, err := w.SetupEncryptionWithPasswords(pw, []byte("own"), -4, true); err != nil {
			t.Fail("encrypt", "%v", err)
			return
		}
	}
	cat := w.NextObjectNumber()
	if r.Intn(3) == 0 {
		cat += 40 + r.Intn(10)
	}
	w.SetObject(cat, []byte("<< >>"))
	delete(want, cat)
	pages := w.NextObjectNumber()
	n := 1 + r.Intn(4)
	kids := pdfx.Arr{}
	pageNums := map[int]int{}
	nums := r.Perm(2 * n)
	sort.Ints(nums[:n])
	for i := 0; i < n; i++ {
		num := pages + 1 + nums[i]
		if r.Intn(2) == 0 {
			num = pages + 1 + i
		}
		for want[num] != nil {
			num++
		}
		set(num, pdfx.Dict{"Type": pdfx.Name("Page"), "Parent": pdfx.Ref{N: pages}, "MediaBox": pdfx.Arr{0, 0, 612, 792}, "No": i})
		pageNums[i+1] = num
		kids = append(kids, pdfx.Ref{N: num})
	}
	set(pages, pdfx.Dict{"Type": pdfx.Name("Pages"), "Kids": kids, "Count": n})

	catalog := func(version int) pdfx.Dict {
		v := pdfx.Dict{"Type": pdfx.Name("Catalog"), "Pages": pdfx.Ref{N: pages}, "V": version}
		for _, k := range []string{"Lang", "PageMode", "AcroForm", "Names", "Metadata", "OutlinesX", "ViewerPreferences", "OpenAction", "Outlines"} {
			if r.Intn(3) > 0 {
				continue
			}
			v[k] = map[string]pdfx.Val{
				"Lang": pdfx.Str("en (US) >> endobj"), "PageMode": pdfx.Name("UseOutlines"), "AcroForm": pdfx.Dict{"Fields": pdfx.Arr{}, "DA": pdfx.Str("/Helv 0 Tf")},
				"Names":    pdfx.Dict{"Dests": pdfx.Dict{"Names": pdfx.Arr{pdfx.Str("d"), pdfx.Arr{pdfx.Ref{N: pageNums[1]}, pdfx.Name("Fit")}}}},
				"Metadata": pdfx.Ref{N: pages}, "OutlinesX": pdfx.Ref{N: pages}, "ViewerPreferences": pdfx.Dict{"Outlines": true, "A": pdfx.Dict{}},
				"OpenAction": pdfx.Arr{pdfx.Ref{N: pageNums[1]}, pdfx.Name("FitB")}, "Outlines": pdfx.Null{},
			}[k]
		}
		return v
	}
	items := map[int]*olItem{}
	var saw func(m []*olNode) []types.Bookmark
	outside := map[int]bool{}
	saw = func(m []*olNode) []types.Bookmark {
		var o []types.Bookmark
		for _, x := range m {
			it := items[x.ID]
			if it == nil {
				v := randItem(r, n)
				it = &v
				if it.kind == "array" {
					it.dest = string(pdfx.Write(append(pdfx.Arr{pdfx.Ref{N: pageNums[it.page]}}, [][]pdfx.Val{{pdfx.Name("Fit")}, {pdfx.Name("XYZ"), 10, pdfx.Real(20.5), pdfx.Null{}}}[r.Intn(2)]...)))
				}
				items[x.ID] = it
			}
			b := types.Bookmark{Title: it.title, URI: it.uri, Destination: it.dest, Children: saw(x.Kids)}
			if it.kind == "page" {
				b.PageNumber = it.page
				if outside[x.ID] {
					b.PageNumber = n + 5
				}
			}
			o = append(o, b)
		}
		return o
	}

	var catVal pdfx.Dict
	nextFile, cats := 0, 0
	var prev []byte
	t.Do("session", nil, func() {
		for i, op := range c.Log {
			switch op.A {
			case "cat":
				cats++
				catVal = catalog(cats)
				set(cat, catVal)
				delete(want, cat)
			case "root":
				w.SetRoot(cat)
			case "marks":
				num, err := w.SetBookmarks(saw(op.M), pageNums)
				if err != nil || num == 0 {
					t.Fail("set", "step %d: SetBookmarks returned %d, %v", i+1, num, err)
					return
				}
			case "save":
				file := c.Files[nextFile]
				nextFile++
				var out []byte
				var err error
				for k := 1 + r.Intn(2); k > 0; k-- {
					out, err = w.Bytes()
				}
				if err != nil {
					t.Fail("save", "step %d: %v", i+1, err)
					return
				}
				olCheckFile(t, out, prev, pw, cat, catVal, want, file.Marks, items, pageNums)
				if t.Failed() {
					return
				}
				t.Count("files", 1)
			}
			if r.Intn(3) == 0 {
				v := body(r, 20, 1000+i, true)
				num := w.AddObject(pdfx.Write(v))
				if want[num] != nil || num == cat {
					t.Fail("number", "step %d: a new object got number %d, which is taken", i+1, num)
					return
				}
				want[num] = v
			}
		}
	})
}

func olCheckFile(t *T, out, prev, pw []byte, cat int, catVal pdfx.Dict, want map[int]pdfx.Val, marks []*olNode, items map[int]*olItem, pageNums map[int]int) {
	f, err := pdfx.ReadFile(out)
	if err == nil && pw != nil {
		_, err = f.Unlock(pw)
	}
	if err == nil {
		err = f.CheckAll()
	}
	if err != nil {
		t.FailBlob("malformed", out, "strict reader: %v", err)
		return
	}
	for n, v := range want {
		got, err := f.Get(n)
		if err == nil && pdfx.Canon(got) != pdfx.Canon(v) {
			err = fmt.Errorf("is %.200s, should be %.200s", pdfx.Canon(got), pdfx.Canon(v))
		}
		if err != nil {
			t.FailBlob("object", out, "object %d %v", n, err)
			return
		}
	}
	root, err := f.DictOf(f.Trailer["Root"])
	if err != nil {
		t.FailBlob("catalog", out, "%v", err)
		return
	}
	rest := pdfx.Dict{}
	for k, v := range root {
		rest[k] = v
	}
	if len(marks) > 0 {
		delete(rest, "Outlines")
		x := pdfx.Dict{}
		for k, v := range catVal {
			if k != "Outlines" {
				x[k] = v
			}
		}
		catVal = x
	}
	if pdfx.Canon(rest) != pdfx.Canon(catVal) {
		t.FailBlob("catalog", out, "catalog without outlines is %.300s, should be %.300s", pdfx.Canon(rest), pdfx.Canon(catVal))
		return
	}
	if len(marks) > 0 {
		if err := olCheckTree(t, f, root["Outlines"], marks, items, pageNums); err != nil {
			t.FailBlob("structure", out, "outlines: %v", err)
			return
		}
	}
	got, ok := olMarks(t, out, pw)
	if !ok {
		return
	}
	t.Count("read_back", 1)
	olSame(t, out, got, marks, items, "root")
}

// olCheckTree walks the outline as a strict reader does.
func olCheckTree(t *T, f *pdfx.File, rootRef pdfx.Val, marks []*olNode, items map[int]*olItem, pageNums map[int]int) error {
	if _, ok := rootRef.(pdfx.Ref); !ok {
		return fmt.Errorf("the catalog's entry is no reference")
	}
	seen := map[int]bool{}
	var level func(ref pdfx.Val, ms []*olNode) (int, error)
	level = func(ref pdfx.Val, ms []*olNode) (int, error) {
		self := ref.(pdfx.Ref)
		d, err := f.DictOf(ref)
		if err != nil {
			return 0, err
		}
		if len(ms) == 0 {
			for _, k := range []string{"First", "Last"} {
				if _, ok := d[k]; ok {
					return 0, fmt.Errorf("object %d has %s but no items below", self.N, k)
				}
			}
			if c, ok := d["Count"]; ok && c != 0 {
				return 0, fmt.Errorf("object %d has Count %v but no items below", self.N, c)
			}
			return 0, nil
		}
		visible := 0
		cur := d["First"]
		var last pdfx.Val
		for i, m := range ms {
			r, ok := cur.(pdfx.Ref)
			if !ok || seen[r.N] {
				return 0, fmt.Errorf("below object %d: item %d of %d is %v", self.N, i+1, len(ms), cur)
			}
			seen[r.N] = true
			item, err := f.DictOf(r)
			if err != nil {
				return 0, err
			}
			if item["Parent"] != pdfx.Val(self) {
				return 0, fmt.Errorf("object %d has Parent %v, should be %v", r.N, item["Parent"], self)
			}
			if item["Prev"] != last {
				return 0, fmt.Errorf("object %d has Prev %v, should be %v", r.N, item["Prev"], last)
			}
			it := items[m.ID]
			if s, ok := pdfx.TextOf(item["Title"]); !ok || s != it.title {
				return 0, fmt.Errorf("object %d has Title %v, should be %q", r.N, pdfx.Canon(item["Title"]), it.title)
			}
			if err := olTarget(f, item, it, pageNums); err != nil {
				return 0, fmt.Errorf("object %d: %v", r.N, err)
			}
			below, err := level(r, m.Kids)
			if err != nil {
				return 0, err
			}
			visible += 1 + below
			last, cur = r, item["Next"]
		}
		if cur != nil {
			return 0, fmt.Errorf("below object %d: more than %d items", self.N, len(ms))
		}
		if d["Last"] != last {
			return 0, fmt.Errorf("object %d has Last %v, should be %v", self.N, d["Last"], last)
		}
		c, ok := d["Count"].(int)
		if !ok || c != visible && c != -visible {
			return 0, fmt.Errorf("object %d has Count %v, should be %d", self.N, d["Count"], visible)
		}
		if c < 0 {
			visible = 0
		}
		return visible, nil
	}
	_, err := level(rootRef, marks)
	return err
}

func olTarget(f *pdfx.File, item pdfx.Dict, it *olItem, pageNums map[int]int) error {
	target := item["Dest"]
	uri := ""
	if item["A"] != nil {
		a, err := f.DictOf(item["A"])
		if err != nil {
			return err
		}
		switch a["S"] {
		case pdfx.Name("GoTo"):
			if target != nil {
				return fmt.Errorf("both Dest and an action")
			}
			target = a["D"]
		case pdfx.Name("URI"):
			s, ok := a["URI"].(pdfx.Str)
			if !ok {
				return fmt.Errorf("URI is %s", pdfx.Canon(a["URI"]))
			}
			uri = string(s)
		default:
			return fmt.Errorf("action %s", pdfx.Canon(a))
		}
	}
	if uri != it.uri {
		return fmt.Errorf("URI %q, should be %q", uri, it.uri)
	}
	if target != nil {
		var err error
		if target, err = f.Deref(target); err != nil {
			return err
		}
	}
	ok := target == nil
	switch it.kind {
	case "page":
		a, isArr := target.(pdfx.Arr)
		ok = isArr && len(a) > 1 && a[0] == pdfx.Val(pdfx.Ref{N: pageNums[it.page]})
		if ok {
			_, ok = a[1].(pdfx.Name)
		}
	case "name":
		ok = target == pdfx.Val(pdfx.Name(it.dest[1:]))
	case "text":
		s, isStr := pdfx.TextOf(target)
		ok = isStr && s == it.dest
	case "array":
		v, _ := pdfx.Parse([]byte(it.dest))
		ok = pdfx.Canon(target) == pdfx.Canon(v)
	}
	if !ok {
		return fmt.Errorf("target %s, should be %+v", pdfx.Canon(target), *it)
	}
	return nil
}

var _ = bytes.Equal
