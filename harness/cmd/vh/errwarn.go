package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"math/rand"

	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/forms"
	"github.com/benedoc-inc/pdfer/types"
	"verif/harness/pdfx"
)

// P16: errors keep their class however they are wrapped; warning collectors
// return what was added.
func init() {
	props["P16"] = func(t *T) {
		if strings.HasPrefix(t.Tag, "w") {
			warningsReplay(t)
		} else {
			errorsReplay(t)
		}
	}
	recorders["warnings"] = recordWarnings
}

var sentinels = map[string]*types.PDFError{
	"INVALID_PDF": types.ErrInvalidPDF, "MALFORMED_PDF": types.ErrMalformedPDF, "UNSUPPORTED_PDF": types.ErrUnsupportedPDF,
	"OBJECT_NOT_FOUND": types.ErrObjectNotFound, "INVALID_OBJECT": types.ErrInvalidObject, "STREAM_ERROR": types.ErrStreamError,
	"XREF_ERROR": types.ErrXRefError, "ENCRYPTED": types.ErrEncrypted, "DECRYPTION_FAILED": types.ErrDecryptionFailed,
	"WRONG_PASSWORD": types.ErrWrongPassword, "UNSUPPORTED_CRYPTO": types.ErrUnsupportedCrypto, "NO_FORMS": types.ErrNoForms,
	"INVALID_FORM": types.ErrInvalidForm, "FIELD_NOT_FOUND": types.ErrFieldNotFound, "INVALID_VALUE": types.ErrInvalidValue,
	"VALIDATION_ERROR": types.ErrValidationError, "NO_CONTENT": types.ErrNoContent, "EXTRACTION_ERROR": types.ErrExtractionError,
	"FONT_ERROR": types.ErrFontError, "IMAGE_ERROR": types.ErrImageError, "WRITE_ERROR": types.ErrWriteError,
	"INVALID_INPUT": types.ErrInvalidInput, "IO_ERROR": types.ErrIOError,
}

// libErrors are errors the library itself returns, by the code they must have.
var libErrors = sync.OnceValue(func() map[string]error {
	r := rand.New(rand.NewSource(1))
	m := map[string]error{}
	_, m["INVALID_PDF"] = parse.Open([]byte("%PDF"))
	b := pdfx.NewBuilder("1.4", 4)
	b.Append("table", []pdfx.Obj{
		{N: 1, V: pdfx.Dict{"Type": pdfx.Name("Catalog"), "Pages": pdfx.Ref{N: 2}}},
		{N: 2, V: pdfx.Dict{"Type": pdfx.Name("Pages"), "Count": 1, "Kids": pdfx.Arr{pdfx.Ref{N: 3}}}},
		{N: 3, V: pdfx.Dict{"Type": pdfx.Name("Page"), "Parent": pdfx.Ref{N: 2}, "MediaBox": pdfx.Arr{0, 0, 10, 10}}},
	}, nil, pdfx.Ref{N: 1}, nil, pdfx.RandLayout(r))
	pdf := b.Buf.Bytes()
	p, err := parse.Open(pdf)
	if err != nil {
		panic("harness: plain document does not open: " + err.Error())
	}
	_, m["OBJECT_NOT_FOUND"] = p.GetObject(9)
	_, m["NO_FORMS"] = forms.Extract(pdf, nil, false)
	_, m["INVALID_INPUT"] = p.GetRawObject(1)
	return m
})

func errorsReplay(t *T) {
	var log []struct {
		A, C, K, Code string
		B, Some       bool
		Match         []string
	}
	t.JSON(&log)
	var cur, side error
	type ctx struct {
		e *types.PDFError
		m map[string]interface{}
	}
	var ctxs []ctx
	var outer, souter *types.PDFError // the PDFError the chain is classified by
	n := 0
	made := func(e *types.PDFError) *types.PDFError {
		m := map[string]interface{}{}
		for i := t.R.Intn(3); i > 0; i-- {
			n++
			k := fmt.Sprintf("k%d", t.R.Intn(3))
			m[k] = n
			if e.WithContext(k, n) != e {
				t.Fail("context", "WithContext returned another error")
			}
		}
		ctxs = append(ctxs, ctx{e, m})
		outer = e
		return e
	}
	for i, s := range log {
		t.Steps++
		msg := fmt.Sprintf("step %d %%d (x)", i)
		switch s.A {
		case "plain":
			cur = errors.New(msg)
			outer = nil
		case "pdf":
			switch t.R.Intn(5) {
			case 0:
				cur = made(types.NewPDFError(types.PDFErrorCode(s.C), msg))
			case 1:
				cur = made(types.NewPDFErrorf(types.PDFErrorCode(s.C), "step %d", i))
			case 2:
				cur = made(types.WrapError(types.PDFErrorCode(s.C), msg, nil))
			case 3:
				cur = made(&types.PDFError{Code: types.PDFErrorCode(s.C), Message: msg})
			default:
				cur = sentinels[s.C]
				outer = sentinels[s.C]
			}
		case "lib":
			e := libErrors()[s.C]
			if e == nil {
				t.Fail("lib", "the call that must fail with %s succeeded", s.C)
				return
			}
			cur = e
			pe, ok := types.IsPDFError(e)
			if !ok {
				t.Fail("lib", "the library returned %T (%v), not a PDFError with code %s", e, e, s.C)
				return
			}
			outer = pe
		case "wrap":
			if t.R.Intn(2) == 0 {
				cur = fmt.Errorf("%s: %w", "wrapped", cur)
			} else {
				cur = fmt.Errorf("%w (wrapped)", cur)
			}
		case "class":
			if t.R.Intn(2) == 0 {
				cur = made(types.WrapError(types.PDFErrorCode(s.C), msg, cur))
			} else {
				cur = made(types.WrapErrorf(types.PDFErrorCode(s.C), cur, "step %d %s", i, "x"))
			}
			if !strings.Contains(cur.Error(), s.C) || !strings.Contains(cur.Error(), fmt.Sprintf("step %d", i)) {
				t.Fail("text", "error text %q lacks its code %s or its message", cur.Error(), s.C)
			}
		case "hide":
			cur = fmt.Errorf("opaque: %v", cur)
			outer = nil
		case "park":
			side, souter, cur, outer = cur, outer, nil, nil
		case "combine":
			l, r := cur, side
			if !s.B {
				l, r = side, cur
				if souter != nil {
					outer = souter
				}
			} else if outer == nil {
				outer = souter
			}
			if s.K == "join" {
				cur = errors.Join(l, r)
			} else {
				cur = fmt.Errorf("both %w and %w", l, r)
			}
			side, souter = nil, nil
		}
		if !s.Some {
			continue
		}
		code, ok := types.GetErrorCode(cur)
		if string(code) != s.Code || ok != (s.Code != "") {
			t.Fail("code", "step %d: GetErrorCode(%v) = %q, %v; the error's code is %q", i, cur, code, ok, s.Code)
			return
		}
		pe, ok := types.IsPDFError(cur)
		if ok != (s.Code != "") || (ok && pe != outer) {
			t.Fail("ispdf", "step %d: IsPDFError(%v) = %v, %v; want the outermost library error %v", i, cur, pe, ok, outer)
			return
		}
		var as *types.PDFError
		if errors.As(cur, &as) != (s.Code != "") || as != outer {
			t.Fail("as", "step %d: errors.As(%v) = %v; want the outermost library error %v", i, cur, as, outer)
			return
		}
		in := map[string]bool{}
		for _, c := range s.Match {
			in[c] = true
		}
		for c, sent := range sentinels {
			if errors.Is(cur, sent) != in[c] {
				t.Fail("is", "step %d: errors.Is(%v, %s) = %v, want %v", i, cur, c, !in[c], in[c])
				return
			}
			if errors.Is(cur, &types.PDFError{Code: types.PDFErrorCode(c), Message: "other"}) != in[c] {
				t.Fail("is", "step %d: errors.Is(%v, another error of code %s) = %v, want %v", i, cur, c, !in[c], in[c])
				return
			}
		}
		set := func(cs ...string) bool {
			for _, c := range cs {
				if c == s.Code {
					return true
				}
			}
			return false
		}
		for _, q := range []struct {
			name string
			got  bool
			want bool
		}{
			{"IsNotFound", types.IsNotFound(cur), set("OBJECT_NOT_FOUND", "FIELD_NOT_FOUND")},
			{"IsEncryptionError", types.IsEncryptionError(cur), set("ENCRYPTED", "DECRYPTION_FAILED", "WRONG_PASSWORD", "UNSUPPORTED_CRYPTO")},
			{"IsValidationError", types.IsValidationError(cur), set("VALIDATION_ERROR", "INVALID_VALUE")},
		} {
			if q.got != q.want {
				t.Fail("class", "step %d: %s(%v) = %v, want %v (its code is %q)", i, q.name, cur, q.got, q.want, s.Code)
				return
			}
		}
	}
	for _, c := range ctxs {
		if len(c.m) != len(c.e.Context) || (len(c.m) > 0 && !reflect.DeepEqual(c.m, c.e.Context)) {
			t.Fail("context", "context of %v is %v, was given %v", c.e, c.e.Context, c.m)
		}
	}
	for c, s := range sentinels {
		if s.Message != "" || s.Cause != nil || len(s.Context) != 0 || string(s.Code) != c {
			t.Fail("sentinel", "the shared error %s was changed: %+v", c, s)
			return
		}
	}
	if types.IsNotFound(nil) || types.IsEncryptionError(nil) || types.IsValidationError(nil) {
		t.Fail("class", "nil is classified as an error")
	}
	if c, ok := types.GetErrorCode(nil); ok || c != "" {
		t.Fail("code", "nil has code %q", c)
	}
}

func levelOf(l string) types.WarningLevel {
	return map[string]types.WarningLevel{"i": types.WarningLevelInfo, "w": types.WarningLevelWarning, "e": types.WarningLevelError}[l]
}

func warningsReplay(t *T) {
	var log []struct {
		A, L, C   string
		B         bool
		List, Res []int
	}
	t.JSON(&log)
	type exp struct {
		lvl  types.WarningLevel
		code string
		msg  string
		ctx  map[string]interface{}
		w    *types.Warning
	}
	var all []*exp
	var wc *types.WarningCollector
	type held struct {
		got  []*types.Warning
		snap []*types.Warning
		want []int
		what string
	}
	var helds []held
	same := func(what string, got []*types.Warning, want []int) bool {
		if len(got) != len(want) {
			t.Fail("list", "%s: %d warnings, want %v", what, len(got), want)
			return false
		}
		for i, n := range want {
			e, w := all[n-1], got[i]
			if w == nil || w.Level != e.lvl || w.Code != e.code || w.Message != e.msg || (e.w != nil && w != e.w) {
				t.Fail("list", "%s: warning %d is %+v, want #%d %q %s %s", what, i, w, n, e.msg, e.lvl, e.code)
				return false
			}
			if len(w.Context) != len(e.ctx) {
				t.Fail("wcontext", "%s: warning %d has context %v, want %v", what, i, w.Context, e.ctx)
				return false
			}
			for k, v := range e.ctx {
				if w.Context[k] != v {
					t.Fail("wcontext", "%s: warning %d has context %v, want %v", what, i, w.Context, e.ctx)
					return false
				}
			}
			if !strings.Contains(w.Error(), e.msg) || !strings.Contains(w.Error(), string(e.lvl)) || !strings.Contains(w.Error(), e.code) {
				t.Fail("wtext", "%s: text of warning %d is %q", what, i, w.Error())
				return false
			}
		}
		return true
	}
	for i, s := range log {
		t.Steps++
		what := fmt.Sprintf("step %d %s", i, s.A)
		switch s.A {
		case "new":
			wc = types.NewWarningCollector(s.B)
		case "add":
			e := &exp{lvl: levelOf(s.L), code: s.C, msg: fmt.Sprintf("m%d", i), ctx: map[string]interface{}{}}
			if s.C == "" && t.R.Intn(3) == 0 {
				wc.AddWarning(e.lvl, e.msg)
			} else if s.C == "" && t.R.Intn(2) == 0 {
				e.msg = fmt.Sprintf("f%d %q", i, "x")
				wc.AddWarningf(e.lvl, "f%d %q", i, "x")
			} else if t.R.Intn(2) == 0 {
				wc.AddWarningWithCode(e.lvl, s.C, e.msg)
			} else {
				var w *types.Warning
				switch {
				case s.C != "":
					w = types.NewWarningWithCode(e.lvl, s.C, e.msg)
				case t.R.Intn(3) == 0:
					w = types.NewWarning(e.lvl, e.msg)
				case t.R.Intn(2) == 0:
					w = types.NewWarningf(e.lvl, "m%d", i)
				default:
					w = &types.Warning{Level: e.lvl, Message: e.msg}
				}
				add := func() {
					k := fmt.Sprintf("k%d", t.R.Intn(3))
					e.ctx[k] = i
					if w.WithContext(k, i) != w {
						t.Fail("wcontext", "WithContext returned another warning")
					}
				}
				for t.R.Intn(2) == 0 {
					add()
				}
				wc.Add(w)
				if t.R.Intn(4) == 0 {
					add()
				}
				e.w = w
			}
			all = append(all, e)
			if t.R.Intn(6) == 0 {
				wc.Add(nil)
			}
		case "clear":
			wc.Clear()
		case "enable":
			if s.B {
				wc.Enable()
			} else {
				wc.Disable()
			}
			if wc.IsEnabled() != s.B {
				t.Fail("enabled", "%s: IsEnabled() = %v", what, !s.B)
			}
		case "count":
		case "all", "level", "code":
			var got []*types.Warning
			switch s.A {
			case "all":
				got = wc.Warnings()
			case "level":
				got = wc.FilterByLevel(levelOf(s.L))
			default:
				got = wc.GetByCode(s.C)
			}
			if !same(what, got, s.Res) {
				return
			}
			helds = append(helds, held{got, append([]*types.Warning(nil), got...), s.Res, what})
		}
		if wc.Count() != len(s.List) || wc.HasWarnings() != (len(s.List) > 0) {
			t.Fail("count", "%s: Count() = %d, HasWarnings() = %v with %d warnings collected", what, wc.Count(), wc.HasWarnings(), len(s.List))
			return
		}
		for _, h := range helds {
			for k := range h.snap {
				if h.got[k] != h.snap[k] {
					t.Fail("held", "%s: the list returned by %s has changed: entry %d is now %v", what, h.what, k, h.got[k])
					return
				}
			}
		}
	}
	last := log[len(log)-1].List
	same("in the end", wc.Warnings(), last)
	for _, l := range []string{"i", "w", "e"} {
		var want []int
		for _, n := range last {
			if all[n-1].lvl == levelOf(l) {
				want = append(want, n)
			}
		}
		same("in the end, level "+l, wc.FilterByLevel(levelOf(l)), want)
	}
}

// recordWarnings runs several goroutines on one collector and records every
// call with the moments it started and ended and what it answered.
func recordWarnings(seed int64, tier, out string) {
	type call struct {
		A    string `json:"a"`
		L    string `json:"l"`
		C    string `json:"c"`
		ID   int    `json:"id"`
		Call int64  `json:"call"`
		Ret  int64  `json:"ret"`
		Res  []int  `json:"res"`
	}
	type trace struct {
		G     int    `json:"g"`
		Per   int    `json:"per"`
		Calls []call `json:"calls"`
		Final []int  `json:"final"`
	}
	n := 400
	if tier == "thorough" {
		n = 4000
	}
	var traces []trace
	ids := func(ws []*types.Warning) []int {
		r := []int{}
		for _, w := range ws {
			if w == nil {
				r = append(r, -1)
				continue
			}
			k, _ := strconv.Atoi(w.Message)
			r = append(r, k)
		}
		return r
	}
	bit := func(b bool) []int {
		if b {
			return []int{1}
		}
		return []int{0}
	}
	for i := 0; i < n; i++ {
		r := rand.New(rand.NewSource(seed*1000003 + int64(i)))
		g := 2 + r.Intn(3)
		per := 2 + r.Intn(3)
		wc := types.NewWarningCollector(true)
		var clock, id int64
		res := make([][]call, g)
		var wg sync.WaitGroup
		ready := int64(g)
		do := func(r *rand.Rand, c *call) {
			k := int(atomic.AddInt64(&id, 1))
			c.L = []string{"i", "w", "e"}[r.Intn(3)]
			c.C = []string{"x", "y"}[r.Intn(2)]
			c.ID = k
			c.Res = []int{}
			var got []*types.Warning
			w := types.NewWarningWithCode(levelOf(c.L), c.C, strconv.Itoa(k))
			c.Call = atomic.AddInt64(&clock, 1)
			defer func() {
				if e := recover(); e != nil {
					c.Ret = atomic.AddInt64(&clock, 1)
					c.Res = []int{-2}
				}
			}()
			switch c.A {
			case "add":
				wc.Add(w)
			case "all":
				got = wc.Warnings()
			case "count":
				c.Res = []int{wc.Count()}
			case "has":
				c.Res = bit(wc.HasWarnings())
			case "isOn":
				c.Res = bit(wc.IsEnabled())
			case "level":
				got = wc.FilterByLevel(levelOf(c.L))
			case "code":
				got = wc.GetByCode(c.C)
			case "clear":
				wc.Clear()
			case "on":
				wc.Enable()
			case "off":
				wc.Disable()
			}
			c.Ret = atomic.AddInt64(&clock, 1)
			if got != nil {
				c.Res = ids(got)
			}
		}
		kinds := []string{"add", "add", "add", "add", "all", "count", "has", "isOn", "level", "code", "clear", "on", "off"}
		for k := 0; k < g; k++ {
			wg.Add(1)
			rr := rand.New(rand.NewSource(r.Int63()))
			go func(k int) {
				defer wg.Done()
				for atomic.AddInt64(&ready, -1); atomic.LoadInt64(&ready) > 0; {
				}
				for j := 0; j < per; j++ {
					c := call{A: kinds[rr.Intn(len(kinds))]}
					do(rr, &c)
					res[k] = append(res[k], c)
				}
			}(k)
		}
		wg.Wait()
		var tr []call
		for _, cs := range res {
			tr = append(tr, cs...)
		}
		for _, a := range []string{"isOn", "count", "all", "level", "code"} {
			c := call{A: a}
			do(r, &c)
			tr = append(tr, c)
		}
		traces = append(traces, trace{G: 0, Calls: tr, Final: []int{}})
	}
	// bulk histories: every goroutine adds many, others only look on
	for i := 0; i < 12; i++ {
		g, per := 2+i%7, 400
		wc := types.NewWarningCollector(true)
		ready := int64(g)
		var wg sync.WaitGroup
		for k := 1; k <= g; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				defer func() { recover() }()
				for atomic.AddInt64(&ready, -1); atomic.LoadInt64(&ready) > 0; {
				}
				for j := 1; j <= per; j++ {
					switch m := strconv.Itoa(k*1000 + j); j % 3 {
					case 0:
						wc.AddWarning(types.WarningLevelInfo, m)
					case 1:
						wc.AddWarningWithCode(types.WarningLevelError, "x", m)
					default:
						wc.AddWarningf(types.WarningLevelWarning, "%s", m)
					}
					if j%50 == 0 {
						wc.FilterByLevel(types.WarningLevelInfo)
					}
				}
			}(k)
		}
		wg.Wait()
		traces = append(traces, trace{G: g, Per: per, Calls: []call{}, Final: ids(wc.Warnings())})
	}
	b, _ := json.Marshal(traces)
	if err := os.WriteFile(filepath.Join(out, "recorded.json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}
