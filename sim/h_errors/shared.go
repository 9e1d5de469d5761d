//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/bandersnatchErrors"
	. "github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	ps "github.com/GottfriedHerold/Bandersnatch/bandersnatch/pointserializer"
	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/core"
	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/rt"
)

// Scenario errors-shared: threads create, derive, query and print errors that they share.

const maxErrs = 40

type errBox struct {
	mu   rt.Mutex
	defs []*def
}

// seen is something a thread was shown; it is compared with the model and with the error's twin afterwards.
type seen struct {
	d      *def
	how    int
	passed map[string]any
	text   string
	bad    bool // validation failed
}

const (
	hError = iota
	hInterpolate
	hSyntax
	hFinal
	hBase
	hParams
)

var howNames = [...]string{"Error", "Error_interpolate", "ValidateSyntax", "ValidateError_Final", "ValidateError_Base", "ValidateError_Params"}

type errCtx struct {
	x     *core.X
	box   *errBox
	defs  []*def
	log   []seen
	deep  bool // keep messages short
	plain bool // without types
}

func (c *errCtx) add(d *def) {
	if len(c.defs) < maxErrs {
		c.defs = append(c.defs, d)
	}
}

// what tells about an error, for messages.
func what(d *def) string {
	s := ""
	for ; d != nil; d = d.base {
		st := "-"
		if d.st != nil {
			st = d.st.name
		}
		s += fmt.Sprintf("[%s %q %v]", st, d.src, d.data())
	}
	return s
}

var modes = []PreviousDataTreatment{ReplacePreviousData, PreferPreviousData, AssertDataIsNotReplaced, {}}

// someParams draws parameters; with a struct type, mostly such that they suit.
func someParams(r *core.Rng, st *styp) map[string]any {
	m := map[string]any{}
	if st != nil && r.P(4, 5) {
		m = st.gen(r.N)
		for _, f := range st.fields {
			if r.P(1, 8) {
				delete(m, f.name)
			} else if r.P(1, 12) {
				m[f.name] = value(r.N(60))
			}
		}
	}
	for n := r.Pick(0, 0, 1, 1, 2, 3); n > 0; n-- {
		name := names[r.N(len(names))]
		if r.P(1, 8) {
			name = oddNames[r.N(len(oddNames))]
		}
		if _, there := m[name]; !there || st == nil || r.P(1, 6) {
			m[name] = value(r.N(60))
		}
	}
	if r.P(1, 16) {
		of := 50
		n := r.Pick(5, 9, 17, 40)
		if r.P(1, 8) {
			n, of = 150, 300
		}
		for ; n > 0; n-- {
			m[fmt.Sprintf("P%d", r.N(of))] = value(r.N(60))
		}
	}
	if r.P(1, 100) {
		m[names[r.N(len(names))]] = strings.Repeat("long ", r.Pick(30, 300, 1500, 14000))
	}
	return m
}

func sortedKeys(m map[string]any) (l []string) {
	for k := range m {
		l = append(l, k)
	}
	for i := range l {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
	return
}

// flat gives name-value pairs, some names twice (the last one counts).
func flat(m map[string]any, r *core.Rng) (p []any) {
	for _, k := range sortedKeys(m) {
		if r.P(1, 6) {
			p = append(p, k, value(r.N(60)))
		}
	}
	for _, k := range sortedKeys(m) {
		p = append(p, k, m[k])
	}
	return
}

func spoil(m map[string]any) {
	for k := range m {
		m[k] = "spoiled"
	}
	m["Spoiled"] = 1
	m["A"] = "spoiled"
}

func spoilList(p []any) {
	for i := range p {
		p[i] = "spoiled"
	}
}

// derive makes a new error from base (nil: none).
func (c *errCtx) derive(base *def, r *core.Rng) *def {
	x := c.x
	way := r.N(14)
	if base == nil {
		way = r.N(5)
	} else if c.plain {
		way = r.Pick(3, 4, 8, 9)
	}
	st := styps[r.N(len(styps))]
	if base != nil && base.st != nil && r.P(1, 2) {
		st = base.st
	}
	mdt, fill := EnsureDataIsPresent, false
	if r.P(1, 2) {
		mdt, fill = MissingDataAsZero, true
	}
	imode := r.Pick(0, 0, 0, 1, 1, 2, 2, 3)
	if imode == 3 && r.P(2, 3) {
		imode = 0
	}
	mode := modes[imode]
	d := &def{base: base, keepB: true}
	old := map[string]any{}
	if base != nil {
		old = base.data()
	}

	// the message
	text := ""
	hasMsg := way < 5 && (base == nil || r.P(3, 5))
	if hasMsg && r.P(1, 20) {
		hasMsg = false
	}
	if hasMsg && c.deep {
		d.msg = []node{{k: nLit, text: "deep "}, {k: nParent, dol: r.P(2, 3)}}
		if r.P(1, 2) {
			d.msg = append(d.msg, node{k: nFmt, dol: r.P(1, 2), text: "v", name: names[r.N(len(names))]})
		}
		text = renderMsg(d.msg, r)
	} else if hasMsg {
		d.msg = genMsg(r, 0, base != nil)
		text = renderMsg(d.msg, r)
		if text == "" {
			d.msg = []node{{k: nLit, text: "error"}}
			text = "error"
		}
		if r.P(1, 6) {
			b := broken[r.N(len(broken))]
			if r.P(1, 3) { // anything; the last one is not closed in any case
				for i := r.In(1, 6); i > 0; i-- {
					text += soup[r.N(len(soup))]
				}
				text += r.PickS(" %v{", " %", " $", " %!", " $!", " $s{", " %!m>0", " %v{A")
			} else if r.P(1, 2) {
				text = "x " + b + text
			} else {
				text += " " + b
			}
			d.malformed = true
		}
	} else if base != nil {
		d.msg = []node{{k: nParent, dol: base.interpolater()}}
	}
	d.src = text

	// the data
	ok := true
	var vals map[string]any
	var name string
	refuse := 0
	switch way {
	case 0, 5:
		vals = st.gen(r.N)
	case 1, 2, 6, 7:
		vals = someParams(r, st)
	case 3, 4, 8, 9:
		vals = someParams(r, nil)
		st = nil
	case 10, 11:
		l := append(sortedKeys(old), names...)
		name = l[r.N(len(l))]
		if way == 11 {
			st = nil
		}
	case 12:
		d.keepB = false
	case 13:
		d.foreign, st = true, nil
	}
	d.st = st
	switch way {
	case 10, 11:
		d.params = copyMap(old)
		delete(d.params, name)
	case 12, 13:
		d.params = copyMap(old)
	default:
		d.params, ok = merge(old, vals, mode)
		if imode == 3 {
			ok = false
		}
	}
	if st != nil && ok {
		ok = st.suits(d.params, fill && way != 0 && way != 5)
	}
	if base == nil && text == "" {
		ok = false
	}
	if (way == 1 || way == 3 || way == 6 || way == 8) && r.P(1, 16) {
		refuse = r.In(1, 2) // odd number of arguments or a name that is not a string
		ok = false
	}
	seed := r.U64()

	// build may be called more than once and shares nothing between its calls
	converted := true
	build := func(b error) (e error) {
		r := core.NewRng(seed)
		m := copyMap(vals)
		var p []any
		if vals != nil {
			p = flat(m, r)
		}
		switch {
		case refuse == 1:
			p = append(p, "A")
		case refuse == 2:
			p = append(p, 5, "A")
		}
		var any ErrorWithData_any
		switch way {
		case 0:
			if imode == 0 && r.P(1, 2) {
				any = st.newStruct(b, text, m)
			} else {
				any = st.newStruct(b, text, m, mode)
			}
		case 1:
			any = st.newParams(b, text, mode, mdt, p...)
		case 2:
			any = st.newMap(b, text, mode, mdt, m)
		case 3:
			any = NewErrorWithData_any_params(b, text, mode, p...)
		case 4:
			any = NewErrorWithData_any_map(b, text, mode, m)
		case 5:
			if imode == 0 && r.P(1, 2) {
				any = st.addStruct(b, m)
			} else {
				any = st.addStruct(b, m, mode)
			}
		case 6:
			any = st.addParams(b, mode, mdt, p...)
		case 7:
			any = st.addMap(b, mode, mdt, m)
		case 8:
			any = AddDataToError_any_params(b, mode, p...)
		case 9:
			any = AddDataToError_any_map(b, mode, m)
		case 10:
			any = st.del(b, name, mdt)
		case 11:
			any = DeleteParameterFromError_any(b, name)
		case 12:
			any, converted = st.as(b, mdt)
		case 13:
			return fmt.Errorf("%s: %w", d.prefix[:len(d.prefix)-2], b)
		}
		spoil(m)
		spoilList(p)
		if any == nil {
			return nil
		}
		return any
	}
	d.remake = build
	if way == 13 {
		if base.anyFlaky() {
			return nil
		}
		d.prefix = r.PickS("wrapped: ", "more %v{A} $w: ")
		if b, ok := base.data()["A"]; ok && r.P(1, 2) {
			_ = b
			d.prefix = "A is there: "
		}
	}
	var berr error
	if base != nil {
		berr = base.err
		if way != 13 {
			if base.box != nil && r.P(1, 3) {
				berr = base.box
			} else if base.plain != nil && r.P(1, 4) {
				berr = base.plain
			}
		}
	}
	val, panicked := core.Try(func() { d.err = build(berr) })
	if way == 12 {
		// conversion tells about failure
		if panicked {
			x.Check(false, "spurious panic", "AsErrorWithData: %v, for %s", val, what(d))
		}
		if converted != ok {
			x.Check(false, "wrong data", "AsErrorWithData[%s] gives %v for %s", st.name, converted, what(base))
		}
		if !ok {
			x.Probe("conversion refused")
			return nil
		}
	}
	if panicked == ok {
		if ok {
			x.Check(false, "spurious panic", "way %d, mode %v: %v, for %s", way, mode, val, what(d))
		} else {
			x.Check(false, "missing panic", "way %d, mode %v, %v: no panic, for %v and %s", way, mode, vals, refuse, what(d))
		}
	}
	if !ok {
		x.Probe("creation refused")
		return nil
	}
	if d.err == nil {
		x.Check(false, "missing error", "way %d gave nil for %s", way, what(d))
	}
	if d.foreign {
		return d
	}
	if e, ok := d.err.(ErrorWithData_any); !ok {
		x.Check(false, "wrong type", "way %d", way)
	} else if r.P(1, 3) {
		if st != nil && r.P(1, 2) {
			d.box = st.box(e)
		} else {
			d.box = MakeErrorIncomparable_any(e)
		}
		if r.P(1, 3) { // boxing twice is boxing once
			switch b := d.box.(ErrorWithData_any); r.N(3) {
			case 0:
				d.box = MakeErrorIncomparable_any(b)
			case 1:
				d.plain = MakeErrorIncomparable(b)
			default:
				if b := d.box; st != nil {
					if again := st.box(b); again != nil {
						d.box = again
					}
				}
			}
		}
	} else if r.P(1, 6) {
		d.plain = MakeErrorIncomparable(e)
	}
	return d
}

// foreign makes an error that is not of the package.
func (c *errCtx) foreignErr(r *core.Rng) *def {
	d := &def{foreign: true}
	text := r.PickS("plain", "50% $w %v{A}", "", "x\ny")
	d.prefix = text
	switch r.N(6) {
	case 0:
		d.custom = true
		d.params = someParams(r, nil)
		d.remake = func(error) error { return &custom{prefix: text, params: copyMap(d.params)} }
		d.err = d.remake(nil)
	case 1, 2:
		f := &flaky{x: c.x, text: text, at: r.Pick(0, 1, 2, 3, 5, 8)}
		d.flaky, d.err = f, f
		d.remake = func(error) error { return errors.New(text) }
	default:
		d.remake = func(error) error { return errors.New(text) }
		d.err = d.remake(nil)
	}
	return d
}

// sentinels are exported error values.
func sentinel(k int) *def {
	d := &def{opaque: true}
	var e error
	switch k % 5 {
	case 0:
		e = ps.ErrInsufficientBufferForDeserialization
	case 1:
		e = bandersnatchErrors.ErrCannotDeserializeXYAllZero
	case 2:
		d.plain = fieldElements.ErrPrefixDoesNotFit
		e = UnboxError(fieldElements.ErrPrefixDoesNotFit)
	case 3:
		d.plain = fieldElements.ErrPrefixLengthInvalid
		e = UnboxError(fieldElements.ErrPrefixLengthInvalid)
	case 4:
		e = fieldElements.ErrEmptyByteSlice
	}
	d.err = e
	d.src = fmt.Sprint("sentinel ", k%5)
	d.params = e.(ErrorWithData_any).GetData_map()
	d.remake = func(error) error { return e }
	return d
}

// target is one of the ways to refer to an error.
func (d *def) target(r *core.Rng) error {
	if d.box != nil && r.P(1, 2) {
		return d.box
	}
	if d.plain != nil && r.P(1, 2) {
		return d.plain
	}
	return d.err
}

// printing runs something that may call Error() of a flaky error.
func (c *errCtx) printing(d *def, f func()) (done bool) {
	if !d.anyFlaky() {
		f()
		return true
	}
	val, panicked := core.Try(f)
	if !panicked {
		return true
	}
	if fp, ok := val.(flakyPanic); ok {
		for b := d; b != nil; b = b.base {
			if b.flaky == fp.f {
				c.x.Probe("panic of a wrapped error reached the caller")
				return false
			}
		}
	}
	panic(val)
}

func (c *errCtx) somePassed(d *def, r *core.Rng) map[string]any {
	switch r.N(5) {
	case 0:
		return nil
	case 1:
		return map[string]any{}
	case 2:
		return copyMap(c.defs[r.N(len(c.defs))].data())
	}
	return someParams(r, nil)
}

func (c *errCtx) note(d *def, how int, passed map[string]any, e error) {
	var s seen
	s.d, s.how, s.passed = d, how, passed
	if e != nil {
		s.bad = true
		c.printing(d, func() { s.text = e.Error() })
	}
	c.log = append(c.log, s)
}

// query looks at an error.
func (c *errCtx) query(d *def, kind int, r *core.Rng) {
	x := c.x
	e := d.err
	if d.box != nil && r.P(1, 3) {
		e = d.box
	}
	data := d.data()
	ewd, isEwd := e.(ErrorWithData_any)
	switch kind % 10 {
	case 0: // text
		if d.plain != nil && r.P(1, 2) {
			e = d.plain
		}
		var s string
		if c.printing(d, func() { s = e.Error() }) {
			c.log = append(c.log, seen{d: d, how: hError, text: s})
		}
	case 1:
		if isEwd {
			p := c.somePassed(d, r)
			var q map[string]any
			if p != nil {
				q = copyMap(p)
			}
			var s string
			if c.printing(d, func() { s = ewd.Error_interpolate(p) }) {
				c.log = append(c.log, seen{d: d, how: hInterpolate, passed: q, text: s})
			}
			if (p == nil) != (q == nil) || !sameMap(p, q) {
				x.Check(false, "argument modified", "Error_interpolate modified its argument")
			}
			if p != nil {
				spoil(p)
			}
		}
	case 2, 3: // the map
		var m map[string]any
		if isEwd && r.P(1, 2) {
			m = ewd.GetData_map()
		} else {
			m = GetData_map(e)
		}
		if m == nil || !sameMap(m, data) {
			x.Check(false, "wrong data", "GetData_map gives %v instead of %v for %s", m, data, what(d))
		}
		spoil(m)
		for k := range m {
			if r.P(1, 2) {
				delete(m, k)
			}
		}
	case 4: // single parameters
		l := append(sortedKeys(data), names...)
		l = append(l, oddNames...)
		for n := 3; n > 0; n-- {
			k := l[r.N(len(l))]
			want, there := data[k]
			var v any
			var ok, has bool
			if isEwd && r.P(1, 2) {
				v, ok = ewd.GetParameter(k)
				has = ewd.HasParameter(k)
			} else {
				v, ok = GetParameter(e, k)
				has = HasParameter(e, k)
			}
			if ok != there || has != there || !sameVal(v, want) {
				x.Check(false, "wrong data", "parameter %q: %v, %v, %v instead of %v, %v for %s", k, v, ok, has, want, there, what(d))
			}
		}
	case 5: // structs
		st := styps[r.N(len(styps))]
		if d.st != nil && r.P(1, 2) {
			st = d.st
		}
		full := copyMap(data)
		strict := st.suits(copyMap(data), false)
		lax := st.suits(full, true)
		if st.has(e) != strict {
			x.Check(false, "wrong data", "HasData[%s] is %v for %s", st.name, !strict, what(d))
		}
		for i, mdt := range []MissingDataTreatment{EnsureDataIsPresent, MissingDataAsZero} {
			var m map[string]any
			want := []bool{strict, lax}[i]
			val, panicked := core.Try(func() { m = st.get(e, mdt) })
			if panicked == want {
				x.Check(false, "wrong data", "GetData_struct[%s] (%d): panic %v (%v) for %s", st.name, i, panicked, val, what(d))
			}
			if want && !sameMap(m, st.content(full)) {
				x.Check(false, "wrong data", "GetData_struct[%s] gives %v for %s", st.name, m, what(d))
			}
		}
		if d.st != nil {
			m, ok := d.st.method(d.err)
			if !ok || !sameMap(m, d.st.content(data)) {
				x.Check(false, "wrong data", "method GetData_struct of %s gives %v, %v for %s", d.st.name, m, ok, what(d))
			}
		}
	case 6: // validation
		if !isEwd {
			return
		}
		switch r.N(4) {
		case 0:
			c.note(d, hSyntax, nil, ewd.ValidateSyntax())
		case 1:
			c.note(d, hFinal, nil, ewd.ValidateError_Final())
		case 2:
			c.note(d, hBase, nil, ewd.ValidateError_Base())
		case 3:
			p := c.somePassed(d, r)
			var q map[string]any
			if p != nil {
				q = copyMap(p)
			}
			c.note(d, hParams, q, ewd.ValidateError_Params(p))
		}
	case 7, 8: // relations
		for n := 2; n > 0; n-- {
			a := c.defs[r.N(len(c.defs))]
			if r.P(1, 2) {
				a = d
				for k := r.N(3); k > 0 && a.base != nil; k-- {
					a = a.base
				}
			}
			t := a.target(r)
			is := errors.Is(d.err, t)
			if d.descends(a) && !is || !d.related(a) && !a.opaque && is {
				x.Check(false, "wrong relation", "errors.Is gives %v for %s and %s", is, what(d), what(a))
			}
			if e != d.err && !errors.Is(e, d.target(r)) {
				x.Check(false, "wrong relation", "errors.Is does not see through the box of %s", what(d))
			}
		}
		if u := UnboxError(e); u != d.err {
			x.Check(false, "wrong relation", "UnboxError")
		}
		if isEwd && UnboxError_any(ewd) != d.err {
			x.Check(false, "wrong relation", "UnboxError_any")
		}
		if d.st != nil {
			if u, ok := d.st.unbox(e); ok && u != d.err {
				x.Check(false, "wrong relation", "UnboxError_struct")
			}
		}
		switch b := e.(type) {
		case interface{ AsComparable_typed() ErrorWithData_any }:
			if b.AsComparable_typed() != d.err {
				x.Check(false, "wrong relation", "AsComparable_typed")
			}
		case interface{ AsComparable() IncomparableMaker }:
			if b.AsComparable() != d.err {
				x.Check(false, "wrong relation", "AsComparable")
			}
		}
		if d.opaque {
			return
		}
		u := errors.Unwrap(d.err)
		switch {
		case d.base == nil:
			if u != nil {
				x.Check(false, "wrong relation", "Unwrap gives an error for %s", what(d))
			}
		case d.keepB:
			if u != d.base.err {
				x.Check(false, "wrong relation", "Unwrap does not give the wrapped error for %s", what(d))
			}
		default:
			if u != d.base.err && (d.base.base == nil && u != nil || d.base.base != nil && !d.base.opaque && u != d.base.base.err) {
				x.Check(false, "wrong relation", "Unwrap of a converted error for %s", what(d))
			}
		}
	case 9:
		if isEwd {
			how := []int{hSyntax, hFinal, hBase}[r.N(3)]
			_, bad := core.Try(func() {
				switch how {
				case hSyntax:
					EnsureErrorsValid_Syntax(ewd)
				case hFinal:
					EnsureErrorsValid_Final(ewd)
				case hBase:
					EnsureErrorsValid_Base(ewd)
				}
			})
			c.log = append(c.log, seen{d: d, how: how, bad: bad, text: "\x00"})
		}
	}
}

// none asks for what there is without an error. Adding data to no error gives no error.
func (c *errCtx) none(r *core.Rng) {
	x := c.x
	st := styps[r.N(len(styps))]
	m := someParams(r, st)
	params := flat(m, r)
	name := r.PickS("A", "B", "Foo", "In", "Nope")
	mode := []PreviousDataTreatment{ReplacePreviousData, PreferPreviousData, AssertDataIsNotReplaced}[r.N(3)]
	mdt := []MissingDataTreatment{EnsureDataIsPresent, MissingDataAsZero}[r.N(2)]
	var e error
	nothing := func(what string, f func() error) {
		val, panicked := core.Try(func() { e = f() })
		if panicked {
			x.Check(false, "spurious panic", "%s[%s] without an error: %v", what, st.name, val)
		}
		if e != nil {
			x.Check(false, "wrong data", "%s[%s] without an error gives an error", what, st.name)
		}
	}
	plain := func(e ErrorWithData_any) error { // keeps an interface with a nil pointer inside
		if e == nil {
			return nil
		}
		return e
	}
	refused := func(what string, f func()) {
		if _, panicked := core.Try(f); !panicked {
			x.Check(false, "accepted", "%s[%s] with neither an error nor a message", what, st.name)
		}
	}
	switch r.N(4) {
	case 0:
		nothing("AddDataToError_params", func() error { return plain(st.addParams(nil, mode, mdt, params...)) })
		nothing("AddDataToError_map", func() error { return plain(st.addMap(nil, mode, mdt, m)) })
		nothing("AddDataToError_struct", func() error { return plain(st.addStruct(nil, nil, mode)) })
		nothing("AddDataToError_any_params", func() error { return plain(AddDataToError_any_params(nil, mode, params...)) })
		nothing("AddDataToError_any_map", func() error { return plain(AddDataToError_any_map(nil, mode, m)) })
	case 1:
		nothing("DeleteParameterFromError", func() error { return plain(st.del(nil, name, mdt)) })
		nothing("DeleteParameterFromError_any", func() error { return plain(DeleteParameterFromError_any(nil, name)) })
		nothing("AsErrorWithData", func() error {
			e, ok := st.as(nil, mdt)
			if !ok {
				x.Check(false, "wrong data", "AsErrorWithData[%s] refuses to convert no error", st.name)
			}
			return plain(e)
		})
		nothing("UnboxError", func() error { return UnboxError(nil) })
	case 2:
		empty := map[string]any{}
		got := GetData_map(nil)
		if got == nil || len(got) != 0 {
			x.Check(false, "wrong data", "no error has data: %v", got)
		}
		got["A"] = 1 // belongs to the caller
		v, ok := GetParameter(nil, name)
		if ok || v != nil || HasParameter(nil, name) {
			x.Check(false, "wrong data", "no error has %s", name)
		}
		if st.has(nil) != st.suits(copyMap(empty), false) {
			x.Check(false, "wrong data", "HasData[%s] without an error is %v", st.name, st.has(nil))
		}
		var data map[string]any
		_, panicked := core.Try(func() { data = st.get(nil, MissingDataAsZero) })
		st.suits(empty, true)
		if panicked || !sameMap(data, st.content(empty)) {
			x.Check(false, "wrong data", "GetData_struct[%s] without an error gives %v", st.name, data)
		}
	case 3:
		refused("NewErrorWithData_params", func() { st.newParams(nil, "", mode, mdt, params...) })
		refused("NewErrorWithData_map", func() { st.newMap(nil, "", mode, MissingDataAsZero, map[string]any{}) })
		refused("NewErrorWithData_struct", func() { st.newStruct(nil, "", nil, mode) })
		refused("NewErrorWithData_any_params", func() { NewErrorWithData_any_params(nil, "", mode) })
		refused("NewErrorWithData_any_map", func() { NewErrorWithData_any_map(nil, "", mode, m) })
	}
	x.Probe("no error")
}

func (c *errCtx) run(op core.Op) {
	r := core.NewRng(uint64(op.Arg(1)))
	d := c.defs[uint64(op.Arg(0))%uint64(len(c.defs))]
	switch op.K {
	case "new":
		if r.P(1, 4) {
			d = c.foreignErr(r)
		} else {
			d = c.derive(nil, r)
		}
		if d != nil {
			c.add(d)
		}
	case "derive":
		if d = c.derive(d, r); d != nil {
			c.add(d)
		}
	case "chain": // many derivations in a row
		c.deep, c.plain = true, r.P(1, 2)
		for n := r.Pick(6, 10, 20, 40); n > 0; n-- {
			if e := c.derive(d, r); e != nil {
				d = e
			}
		}
		c.deep, c.plain = false, false
		c.add(d)
	case "query":
		c.query(d, r.N(10), r)
	case "none":
		c.none(r)
	case "give":
		c.box.mu.Lock()
		if len(c.box.defs) < maxErrs {
			c.box.defs = append(c.box.defs, d)
		}
		c.box.mu.Unlock()
	case "take":
		c.box.mu.Lock()
		if n := len(c.box.defs); n > 0 {
			d = c.box.defs[r.N(n)]
			c.x.Probe("error handed over")
		}
		c.box.mu.Unlock()
		c.add(d)
	}
}

// opaqueText is what sentinels said first in this process.
var opaqueText = map[string]string{}

type twins map[*def]error

func (t twins) of(d *def) error {
	e, ok := t[d]
	if !ok {
		e = d.twin()
		t[d] = e
	}
	return e
}

// judge compares what threads saw with the model and with a copy of the error that nobody else ever used.
func (c *errCtx) judge(t twins) {
	x := c.x
	for _, s := range c.log {
		d := s.d
		tw := t.of(d)
		valid := func(e error) (bool, string) {
			if e == nil {
				return false, ""
			}
			return true, e.Error()
		}
		var text string
		var bad bool
		ewd, _ := tw.(ErrorWithData_any)
		switch s.how {
		case hError:
			text = tw.Error()
		case hInterpolate:
			text = ewd.Error_interpolate(s.passed)
		case hSyntax:
			bad, text = valid(ewd.ValidateSyntax())
		case hFinal:
			bad, text = valid(ewd.ValidateError_Final())
		case hBase:
			bad, text = valid(ewd.ValidateError_Base())
		case hParams:
			bad, text = valid(ewd.ValidateError_Params(s.passed))
		}
		if bad != s.bad || text != s.text && s.text != "\x00" && !(bad && d.anyFlaky()) {
			x.Check(false, "wrong text", "%s (%v): %q, bad: %v, instead of %q, bad: %v, for %s", howNames[s.how], s.passed, s.text, s.bad, text, bad, what(d))
		}
		if d.opaque && s.how == hError {
			if first, ok := opaqueText[d.src]; !ok {
				opaqueText[d.src] = text
			} else if first != text {
				x.Check(false, "wrong text", "%s says %q, formerly %q", d.src, text, first)
			}
		}
		if d.anyOpaque() {
			continue
		}
		switch s.how {
		case hError, hInterpolate:
			if want := ""; !d.anyMalformed() {
				if want = d.print(s.passed); s.text != want {
					x.Check(false, "wrong text", "%s (%v): %q instead of %q for %s", howNames[s.how], s.passed, s.text, want, what(d))
				}
				x.Probe("text compared with the model")
			}
		default:
			want := false
			switch s.how {
			case hSyntax:
				want = d.malformed
			case hFinal:
				want = !d.fine(d.data())
			case hBase:
				want = !d.fine(nil)
			case hParams:
				p := s.passed
				if p == nil {
					p = d.data()
				}
				want = !d.fine(p)
			}
			if want != s.bad {
				x.Check(false, "wrong validation", "%s (%v): bad is %v (%s) for %s", howNames[s.how], s.passed, s.bad, s.text, what(d))
			}
			x.Probe("validation compared with the model")
		}
	}
	c.log = nil
}

func genErrors(r *core.Rng, thorough bool) *core.Plan {
	p := &core.Plan{Cfg: map[string]int64{"seed": int64(r.N(1 << 30)), "init": int64(r.In(1, 6)), "sent": int64(r.N(4) * r.N(32)), "warm": core.B(r.P(1, 4))}}
	for n := r.Pick(1, 2, 2, 2, 3, 4); n > 0; n-- {
		var ops []core.Op
		if r.P(1, 20) {
			ops = append(ops, core.Op{K: "chain", A: []int64{int64(r.N(1 << 16)), int64(r.N(1 << 40))}})
		}
		for k := r.In(2, 10); k > 0; k-- {
			ops = append(ops, core.Op{K: r.PickS("query", "query", "query", "query", "query", "query", "none", "derive", "derive", "derive", "derive", "derive", "derive", "new", "give", "take"), A: []int64{int64(r.N(1 << 16)), int64(r.N(1 << 40))}})
		}
		p.Threads = append(p.Threads, ops)
	}
	return p
}

func execErrors(x *core.X) {
	c0 := &errCtx{x: x, box: &errBox{}}
	x.Seq(func() {
		for k := 0; k < 5; k++ {
			if x.Cfg["sent"]>>k&1 == 1 {
				c0.add(sentinel(k))
			}
		}
		r := core.NewRng(uint64(x.Cfg["seed"]))
		c0.add(c0.foreignErr(core.NewRng(3)))
		for i := int64(0); i < x.Cfg["init"] && i < 16; i++ {
			if r.P(1, 3) {
				c0.run(core.Op{K: "new", A: []int64{0, int64(r.U64() >> 1)}})
			} else {
				c0.run(core.Op{K: "derive", A: []int64{int64(r.N(100)), int64(r.U64() >> 1)}})
			}
		}
		if x.Cfg["warm"] == 1 {
			for _, d := range c0.defs {
				c0.query(d, r.N(10), r)
			}
		}
	})
	var fns []func()
	ctxs := []*errCtx{c0}
	for t := range x.Threads {
		ops := x.Threads[t]
		c := &errCtx{x: x, box: c0.box, defs: append(make([]*def, 0, maxErrs), c0.defs...)}
		ctxs = append(ctxs, c)
		fns = append(fns, func() {
			for _, o := range ops {
				c.run(o)
			}
		})
	}
	x.Go(fns...)
	x.Seq(func() {
		t := twins{}
		for _, c := range ctxs {
			c.judge(t)
		}
		// everything is still as it was
		for i, c := range ctxs {
			for j, d := range c.defs {
				if i > 0 && j < len(c0.defs) {
					continue
				}
				if d.flaky != nil {
					d.flaky.at = 0
				}
				for k := 0; k < 10; k++ {
					c.query(d, k, core.NewRng(uint64(x.Cfg["seed"])+uint64(100*j+k)))
				}
			}
			c.judge(t)
		}
	})
}

func init() {
	core.Register(&core.Scenario{Name: "errors-shared", Props: []string{"P04"}, Gen: genErrors, Exec: execErrors})
}
