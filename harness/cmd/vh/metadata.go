package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/benedoc-inc/pdfer/content/extract"
	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/types"
	"verif/harness/pdfx"
)

// P10: texts of TextStrings.tla and document lives of Metadata.tla.

func init() { props["P10"] = metadataReplay }

type mdVal struct {
	K, Form string
	N       int
	T       [7]int
	At      *struct{ Y, Mo, D, H, Mi, S, Sign, Oh, Om int }
}

type mdTrace struct {
	Text []int  `json:"text"`
	Enc  string `json:"enc"`
	Lit  []int  `json:"lit"`

	Header int `json:"header"`
	Log    []struct {
		A string       `json:"a"`
		F string       `json:"f"`
		V jsonNumOrVal `json:"v"`
	} `json:"log"`
	Files []struct {
		Info    [][2]jsonStrOrVal `json:"info"`
		Gives   int               `json:"gives"`
		Pages   int               `json:"pages"`
		Version int               `json:"version"`
	} `json:"files"`
}

func metadataReplay(t *T) {
	var c mdTrace
	t.JSON(&c)
	if c.Lit != nil {
		mdText(t, &c)
		return
	}
	t.Steps = len(c.Log)
	mdWrite(t, &c)
	if !t.Failed() {
		mdRead(t, &c)
	}
}

func mdExtract(t *T, src, pw []byte) *types.DocumentMetadata {
	p, err := parse.OpenWithOptions(src, parse.ParseOptions{Password: pw})
	if err != nil {
		t.FailBlob("open", src, "%v", err)
		return nil
	}
	md, err := extract.ExtractMetadata(src, p, false)
	if err != nil {
		t.FailBlob("extract", src, "%v", err)
		return nil
	}
	return md
}

// mdText reads one text string given in exact syntax and writes its text.
func mdText(t *T, c *mdTrace) {
	r := t.R
	var rs []rune
	for _, x := range c.Text {
		rs = append(rs, rune(x))
	}
	text := string(rs)
	t.Steps = len(c.Lit)
	var raw pdfx.Raw
	for _, x := range c.Lit {
		raw = append(raw, byte(x))
	}
	if v, err := pdfx.Parse(raw); err != nil {
		panic("harness: " + err.Error())
	} else if s, ok := pdfx.TextOf(v); !ok || s != text && !strings.ContainsAny(text, "\x00") {
		panic(fmt.Sprintf("harness: the specification's %q is %q here, not %q", raw, s, text))
	}
	d := genTreeDoc(r, &specTree{Kids: [][2]interface{}{{float64(treeRoot), []interface{}{1.0, 2.0}}}}, treeOpts{tag: "t"})
	maybe := func(v pdfx.Val) pdfx.Val {
		if r.Intn(4) == 0 {
			return d.add(v)
		}
		return v
	}
	info := d.add(pdfx.Dict{"Title": maybe(raw), "Author": pdfx.Str("after"), "Custom": raw})
	d.info = &info
	item := d.reserve(r)
	ol := d.add(pdfx.Dict{"First": item, "Last": item, "Count": 1})
	d.set(item.N, pdfx.Dict{"Title": maybe(raw), "Parent": ol, "Dest": raw})
	d.objs[d.root.N].(pdfx.Dict)["Outlines"] = ol
	src := d.serialise(r)
	t.Do("read", src, func() {
		md := mdExtract(t, src, nil)
		if md == nil {
			return
		}
		if md.Title != text || md.Custom["Custom"] != text || md.Author != "after" {
			t.FailBlob("read", src, "title %q, custom entry %q, author %q; should be %q, the same and \"after\"", md.Title, md.Custom["Custom"], md.Author, text)
		}
		if marks, ok := olMarks(t, src, nil); ok {
			if len(marks) != 1 || marks[0].Title != text || marks[0].Destination != text {
				t.FailBlob("read/outline", src, "outlines %v, should have the title and destination %q", marks, text)
			}
		}
	})
	if text == "" || t.Failed() {
		return
	}
	w, _ := mdWriter(r)
	var out []byte
	t.Do("write", nil, func() {
		w.SetMetadata(&types.DocumentMetadata{Title: text, Custom: map[string]string{"K": text}})
		w.SetBookmarks([]types.Bookmark{{Title: text, PageNumber: 1}}, map[int]int{1: 3})
		var err error
		if out, err = w.Bytes(); err != nil {
			t.Fail("write", "%v", err)
		}
	})
	if t.Failed() {
		return
	}
	f, err := pdfx.ReadFile(out)
	if err == nil {
		err = f.CheckAll()
	}
	if err != nil {
		t.FailBlob("malformed", out, "strict reader: %v", err)
		return
	}
	i, err := f.DictOf(f.Trailer["Info"])
	if err != nil {
		t.FailBlob("write", out, "information dictionary: %v", err)
		return
	}
	for _, k := range []string{"Title", "K"} {
		if s, ok := pdfx.TextOf(i[k]); !ok || s != text {
			t.FailBlob("write", out, "%s is %s, should be %q", k, pdfx.Canon(i[k]), text)
		}
	}
	root, _ := f.DictOf(f.Trailer["Root"])
	o, _ := f.DictOf(root["Outlines"])
	it, _ := f.DictOf(o["First"])
	if s, ok := pdfx.TextOf(it["Title"]); !ok || s != text {
		t.FailBlob("write", out, "bookmark title is %s, should be %q", pdfx.Canon(it["Title"]), text)
	}
}

// mdWriter makes a writer with catalog 1, page tree 2 and one page 3.
func mdWriter(r *rand.Rand) (*write.PDFWriter, func(pages []int)) {
	w := write.NewPDFWriter()
	w.SetRoot(w.AddObject([]byte("<</Type/Catalog/Pages 2 0 R>>")))
	w.AddObject([]byte("<<>>"))
	w.AddObject([]byte("<</Type/Page/Parent 2 0 R/MediaBox[0 0 9 9]>>"))
	set := func(pages []int) {
		var b strings.Builder
		for _, p := range pages {
			fmt.Fprintf(&b, "%d 0 R ", p)
		}
		w.SetObject(2, []byte(fmt.Sprintf("<</Type/Pages/Count %d/Kids[%s]>>", len(pages), b.String())))
	}
	set([]int{3})
	w.UseXRefStream(r.Intn(2) == 0)
	w.UseObjectStream(r.Intn(3) == 0)
	return w, set
}

var mdPDFDates = []string{"D:2024", "D:202401", "D:20240115", "D:2024011510", "D:202401151030", "D:20240115103000", "D:20240115103000Z", "D:20240115103000+05'30",
	"D:20240115103000-08'00'", "D:199812231952-08'00'", "D:20240229235959Z00'00'", "D:20240115103000-00'30"}

var mdKeys = []string{"Company", "My Key", "A/B", "(x)", "Ключ", "#", "K#20x", "SourceModified", "TitleX", "Author ", "é", "a%b", "[1]", "<<", "x\ty", "AAPL:Keywords", "title2", "R", "0", "Ti"}

func goDate(v *mdVal) string {
	x := v.T
	switch v.Form {
	case "rfc":
		z := fmt.Sprintf("%+03d:%02d", x[6]/60, abs(x[6])%60)
		if x[6] < 0 {
			z = fmt.Sprintf("-%02d:%02d", -x[6]/60, -x[6]%60)
		} else if x[6] == 0 && x[5]%2 == 0 {
			z = "Z"
		}
		return fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d%s", x[0], x[1], x[2], x[3], x[4], x[5], z)
	case "t":
		return fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d", x[0], x[1], x[2], x[3], x[4], x[5])
	case "space":
		return fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d", x[0], x[1], x[2], x[3], x[4], x[5])
	}
	return fmt.Sprintf("%04d-%02d-%02d", x[0], x[1], x[2])
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

var pdfDateRE = regexp.MustCompile(`^D:(\d{4})(\d\d)(\d\d)(\d\d)(\d\d)(\d\d)(?:Z(?:00'00'?)?|([+-])(\d\d)'(\d\d)'?)$`)

func pdfTime(s string) (time.Time, bool) {
	m := pdfDateRE.FindStringSubmatch(s)
	if m == nil {
		return time.Time{}, false
	}
	n := func(i int) int { k, _ := strconv.Atoi(m[i]); return k }
	off := (n(8)*60 + n(9)) * 60
	if n(8) > 23 || n(9) > 59 {
		return time.Time{}, false
	}
	if m[7] == "-" {
		off = -off
	}
	return time.Date(n(1), time.Month(n(2)), n(3), n(4), n(5), n(6), 0, time.FixedZone("", off)), true
}

// mdLife holds the concrete data of one trace.
type mdLife struct {
	r     *rand.Rand
	texts map[int]string
	keys  map[string]string
}

func newMdLife(r *rand.Rand) *mdLife {
	l := &mdLife{r: r, texts: map[int]string{}, keys: map[string]string{}}
	p := r.Perm(len(mdKeys))
	for i := 1; i < 10; i++ {
		l.keys[fmt.Sprintf("k%d", i)] = mdKeys[p[i]]
	}
	return l
}

func (l *mdLife) text(n int) string {
	if l.texts[n] == "" {
		for l.texts[n] == "" || !utf8.ValidString(l.texts[n]) {
			l.texts[n] = randText(l.r)
		}
	}
	return l.texts[n]
}

// want gives the plain strings and the instants the information dictionary has.
func (l *mdLife) want(info [][2]jsonStrOrVal) (map[string]string, map[string]time.Time) {
	s, d := map[string]string{}, map[string]time.Time{}
	for _, e := range info {
		k := e[0].S
		if x, ok := l.keys[k]; ok {
			k = x
		}
		v := e[1].V
		switch v.K {
		case "text":
			s[k] = l.text(v.N)
		case "pdf":
			s[k] = mdPDFDates[v.N-1]
		case "date":
			a := v.At
			d[k] = time.Date(a.Y, time.Month(a.Mo), a.D, a.H, a.Mi, a.S, 0, time.FixedZone("", a.Sign*(a.Oh*60+a.Om)*60))
		default:
			panic("harness: value " + v.K)
		}
	}
	return s, d
}

var mdStandard = []string{"Title", "Author", "Subject", "Keywords", "Creator", "Producer", "CreationDate", "ModDate"}

func mdCompare(t *T, src []byte, step int, md *types.DocumentMetadata, texts map[string]string, dates map[string]time.Time, now bool) {
	got := map[string]string{"Title": md.Title, "Author": md.Author, "Subject": md.Subject, "Keywords": md.Keywords, "Creator": md.Creator,
		"Producer": md.Producer, "CreationDate": md.CreationDate, "ModDate": md.ModDate}
	for _, k := range mdStandard {
		if d, ok := dates[k]; ok {
			if x, ok := pdfTime(got[k]); !ok || !x.Equal(d) {
				t.FailBlob("date", src, "step %d: %s extracted as %q, should be %v", step, k, got[k], d)
			}
		} else if k == "ModDate" && texts[k] == "" && now {
			if x, ok := pdfTime(got[k]); !ok || time.Since(x).Abs() > 48*time.Hour {
				t.FailBlob("date", src, "step %d: ModDate extracted as %q, should be about now", step, got[k])
			}
		} else if got[k] != texts[k] {
			t.FailBlob("field", src, "step %d: %s extracted as %q, should be %q", step, k, got[k], texts[k])
		}
	}
	n := 0
	for k, v := range texts {
		if _, ok := got[k]; ok {
			continue
		}
		n++
		if md.Custom[k] != v {
			t.FailBlob("custom", src, "step %d: custom entry %q extracted as %q, should be %q", step, k, md.Custom[k], v)
		}
	}
	if len(md.Custom) != n {
		t.FailBlob("custom", src, "step %d: custom entries %q, should be %d", step, md.Custom, n)
	}
	t.Count("fields", len(texts)+len(dates))
}

func mdWrite(t *T, c *mdTrace) {
	r := t.R
	l := newMdLife(r)
	w, setPages := mdWriter(r)
	pages := []int{3}
	header, catalog := c.Header, 0
	w.SetVersion(fmt.Sprintf("1.%d", header))
	var pw []byte
	if r.Intn(4) == 0 {
		pw = []byte("pw(é")
		if _, err := w.SetupEncryptionWithPasswords(pw, []byte("own"), -4, true); err != nil {
			t.Fail("encrypt", "%v", err)
			return
		}
	}
	app := map[string]mdVal{}
	next := 0
	t.Do("session", nil, func() {
		for i, op := range c.Log {
			switch op.A {
			case "learn":
				app[op.F] = op.V.V
			case "forget":
				delete(app, op.F)
			case "version":
				if catalog = op.V.N; catalog > header {
					w.SetVersion(fmt.Sprintf("1.%d", catalog))
				} else {
					w.SetVersion(fmt.Sprintf("1.%d", header))
				}
			case "page":
				pages = append(pages, w.AddObject([]byte("<</Type/Page/Parent 2 0 R/MediaBox[0 0 9 9]>>")))
				setPages(pages)
			case "give":
				md := &types.DocumentMetadata{Custom: map[string]string{}}
				fields := map[string]string{}
				std := map[string]*string{"Title": &md.Title, "Author": &md.Author, "Subject": &md.Subject, "Keywords": &md.Keywords, "Creator": &md.Creator,
					"Producer": &md.Producer, "CreationDate": &md.CreationDate, "ModDate": &md.ModDate}
				for f, v := range app {
					s := l.text(v.N)
					if v.K == "pdf" {
						s = mdPDFDates[v.N-1]
					} else if v.K == "date" {
						v := v
						s = goDate(&v)
					}
					if p, ok := std[f]; ok {
						*p = s
						k := f
						switch r.Intn(3) {
						case 0:
							k = strings.ToLower(f)
						case 1:
							k = strings.ReplaceAll(strings.ToLower(f), "date", "_date")
						}
						fields[k] = s
					} else {
						k := l.keys[f]
						if r.Intn(5) == 0 {
							k = "/" + k
						}
						md.Custom[k] = s
						fields[k] = s
					}
				}
				n := 0
				switch r.Intn(4) {
				case 0:
					n = w.SetMetadataFields(fields)
				case 1:
					n = w.SetMetadata(write.NewMetadataFromFields(fields))
				default:
					if len(md.Custom) == 0 && r.Intn(2) == 0 {
						md.Custom = nil
					}
					n = w.SetMetadata(md)
				}
				if n == 0 || n != w.NextObjectNumber()-1 {
					t.Fail("number", "step %d: SetMetadata returned %d", i+1, n)
				}
			case "save":
				file := c.Files[next]
				next++
				out, err := w.Bytes()
				if err != nil {
					t.Fail("save", "step %d: %v", i+1, err)
					return
				}
				f, err := pdfx.ReadFile(out)
				if err == nil && pw != nil {
					_, err = f.Unlock(pw)
				}
				if err == nil {
					err = f.CheckAll()
				}
				if err != nil {
					t.FailBlob("malformed", out, "step %d: strict reader: %v", i+1, err)
					return
				}
				texts, dates := l.want(file.Info)
				mdCheckInfo(t, out, i+1, f, texts, dates, file.Gives > 0)
				md := mdExtract(t, out, pw)
				if t.Failed() {
					return
				}
				mdCompare(t, out, i+1, md, texts, dates, file.Gives > 0)
				mdFacts(t, out, i+1, md, file.Pages, file.Version, pw != nil)
				t.Count("files", 1)
			}
			if t.Failed() {
				return
			}
		}
	})
}

func mdFacts(t *T, src []byte, step int, md *types.DocumentMetadata, pages, version int, enc bool) {
	if md.PageCount != pages || md.PDFVersion != fmt.Sprintf("1.%d", version) || md.Encrypted != enc {
		t.FailBlob("facts", src, "step %d: %d pages, version %s, encrypted %v; should be %d, 1.%d, %v", step, md.PageCount, md.PDFVersion, md.Encrypted, pages, version, enc)
	}
}

// mdCheckInfo looks at the information dictionary with the strict reader.
func mdCheckInfo(t *T, out []byte, step int, f *pdfx.File, texts map[string]string, dates map[string]time.Time, given bool) {
	if !given {
		if f.Trailer["Info"] != nil {
			t.FailBlob("info", out, "step %d: an information dictionary that was never given", step)
		}
		return
	}
	info, err := f.DictOf(f.Trailer["Info"])
	if err != nil {
		t.FailBlob("info", out, "step %d: information dictionary: %v", step, err)
		return
	}
	for k, v := range info {
		s, ok := pdfx.TextOf(v)
		if d, isDate := dates[k]; isDate {
			if x, okT := pdfTime(s); !ok || !okT || !x.Equal(d) {
				t.FailBlob("info/date", out, "step %d: %s is %s (%q), should be %v", step, k, pdfx.Canon(v), s, d)
			}
			continue
		}
		if w, isText := texts[k]; isText {
			if !ok || s != w {
				t.FailBlob("info/text", out, "step %d: %q is %s (%q), should be %q", step, k, pdfx.Canon(v), s, w)
			}
			continue
		}
		if k == "ModDate" {
			if x, okT := pdfTime(s); ok && okT && time.Since(x).Abs() < 48*time.Hour {
				continue
			}
		}
		t.FailBlob("info/extra", out, "step %d: entry %q (%s) was not given", step, k, pdfx.Canon(v))
	}
	for k := range texts {
		if info[k] == nil {
			t.FailBlob("info/missing", out, "step %d: %q is missing", step, k)
		}
	}
	for k := range dates {
		if info[k] == nil {
			t.FailBlob("info/missing", out, "step %d: %q is missing", step, k)
		}
	}
}

// mdRead replays the life as incremental updates by another producer.
func mdRead(t *T, c *mdTrace) {
	r := t.R
	l := newMdLife(r)
	b := pdfx.NewBuilder(fmt.Sprintf("1.%d", c.Header), 500)
	nums := newNumberer(r, 60)
	root, pagesN := pdfx.Ref{N: nums.get()}, nums.get()
	catalog := 0
	var kids pdfx.Arr
	changed := map[int]pdfx.Val{}
	addPage := func() {
		n := nums.get()
		changed[n] = pdfx.Dict{"Type": pdfx.Name("Page"), "Parent": pdfx.Ref{N: pagesN}, "MediaBox": pdfx.Arr{0, 0, 9, 9}}
		kids = append(append(pdfx.Arr{}, kids...), pdfx.Ref{N: n})
		changed[pagesN] = pdfx.Dict{"Type": pdfx.Name("Pages"), "Kids": kids, "Count": len(kids)}
	}
	addPage()
	cat := func() {
		v := pdfx.Dict{"Type": pdfx.Name("Catalog"), "Pages": pdfx.Ref{N: pagesN}}
		if catalog > 0 {
			v["Version"] = pdfx.Name(fmt.Sprintf("1.%d", catalog))
		}
		changed[root.N] = v
	}
	cat()
	var info *pdfx.Ref
	gives, next := 0, 0
	var texts map[string]string
	for i, op := range c.Log {
		switch op.A {
		case "version":
			catalog = op.V.N
			cat()
		case "page":
			addPage()
		case "save":
			file := c.Files[next]
			next++
			var dates map[string]time.Time
			texts, dates = l.want(file.Info)
			if file.Gives != gives {
				gives = file.Gives
				if info == nil || r.Intn(2) == 0 {
					info = &pdfx.Ref{N: nums.get()}
				}
				v := pdfx.Dict{}
				put := func(k string, x pdfx.Val) {
					if r.Intn(5) == 0 {
						n := nums.get()
						changed[n] = x
						x = pdfx.Ref{N: n}
					}
					v[k] = x
				}
				for _, k := range sortedKeys(texts) {
					put(k, textStr(r, texts[k]))
				}
				for _, k := range mdStandard {
					if d, ok := dates[k]; ok {
						_, off := d.Zone()
						sign := "+"
						if off < 0 {
							sign, off = "-", -off
						}
						put(k, pdfx.Str(fmt.Sprintf("%s%s%02d'%02d%s", d.Format("D:20060102150405"), sign, off/3600, off/60%60, []string{"", "'"}[r.Intn(2)])))
					}
				}
				if r.Intn(3) == 0 {
					v["Depth"] = pdfx.Dict{"Title": pdfx.Str("not this"), "Author": pdfx.Str("nor this")}
					v["Pages"] = 77
				}
				changed[info.N] = v
			}
			kind := []string{"table", "xstm"}[r.Intn(2)]
			var objs []pdfx.Obj
			var ns []int
			for n := range changed {
				ns = append(ns, n)
			}
			sort.Ints(ns)
			for _, n := range ns {
				objs = append(objs, pdfx.Obj{N: n, V: changed[n], Packed: kind == "xstm" && r.Intn(2) == 0})
			}
			b.Append(kind, objs, nil, root, info, pdfx.RandLayout(r))
			changed = map[int]pdfx.Val{}
			src := append([]byte(nil), b.Buf.Bytes()...)
			if f, err := pdfx.ReadFile(src); err != nil {
				panic("harness: " + err.Error())
			} else if err := f.CheckAll(); err != nil {
				panic("harness: " + err.Error())
			}
			t.Do("read", src, func() {
				md := mdExtract(t, src, nil)
				if md == nil {
					return
				}
				mdCompare(t, src, i+1, md, texts, dates, false)
				mdFacts(t, src, i+1, md, file.Pages, file.Version, false)
			})
			t.Count("revisions", 1)
			if t.Failed() {
				return
			}
		}
	}
}

func sortedKeys(m map[string]string) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

// Values of the log and of information dictionaries are objects or plain.
type jsonNumOrVal struct {
	N int
	V mdVal
}

func (x *jsonNumOrVal) UnmarshalJSON(b []byte) error {
	if len(b) > 0 && b[0] == '{' {
		return json.Unmarshal(b, &x.V)
	}
	return json.Unmarshal(b, &x.N)
}

type jsonStrOrVal struct {
	S string
	V mdVal
}

func (x *jsonStrOrVal) UnmarshalJSON(b []byte) error {
	if len(b) > 0 && b[0] == '{' {
		return json.Unmarshal(b, &x.V)
	}
	return json.Unmarshal(b, &x.S)
}
