//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"io"
	"reflect"

	. "github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/core"
	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/rt"
)

// Scenario structmeta: threads use struct types for the first time at once.

// mfld is a field that a struct type contributes; its position was determined by hand.
type mfld struct {
	name string
	at   []int
	typ  reflect.Type
}

// mtyp is a type and the generic functions instantiated for it.
type mtyp struct {
	name   string
	typ    reflect.Type
	ok     bool
	fields []mfld
	hidden []string // names that are no fields

	suitable  func() error
	checkAll  func(l []string)
	checkOne  func(n string)
	within    func() // CheckIsSubtype[S, mWide]
	around    func() // CheckIsSubtype[mOne, S]
	newStruct func(base error, vals []any) error
	addStruct func(base error, vals []any) error
	newParams func(base error, mdt MissingDataTreatment, p ...any) error
	newMap    func(base error, mdt MissingDataTreatment, m map[string]any) error
	has       func(err error) bool
	get       func(err error, mdt MissingDataTreatment) []any
	method    func(err error) []any
	as        func(err error, mdt MissingDataTreatment) (error, bool)
	del       func(err error, name string) error
}

type at struct {
	name string
	i    []int
}

func f(name string, i ...int) at { return at{name, i} }

func (t *mtyp) fill(v reflect.Value, vals []any) {
	for i, fl := range t.fields {
		if i < len(vals) && vals[i] != nil {
			v.FieldByIndex(fl.at).Set(reflect.ValueOf(vals[i]))
		}
	}
}

func (t *mtyp) read(v reflect.Value) (vals []any) {
	for _, fl := range t.fields {
		vals = append(vals, v.FieldByIndex(fl.at).Interface())
	}
	return
}

func gen[S any](name string, ok bool, hidden []string, fields ...at) *mtyp {
	t := &mtyp{name: name, typ: ty[S](), ok: ok, hidden: append(hidden, "", "nope", "Nope")}
	for _, a := range fields {
		t.fields = append(t.fields, mfld{a.name, a.i, t.typ.FieldByIndex(a.i).Type})
	}
	t.suitable = StructSuitableForErrorsWithData[S]
	t.checkAll = CheckParametersForStruct_all[S]
	t.checkOne = CheckParameterForStruct[S]
	t.within = CheckIsSubtype[S, mWide]
	t.around = CheckIsSubtype[mOne, S]
	mk := func(vals []any) *S {
		s := new(S)
		if t.ok {
			t.fill(reflect.ValueOf(s).Elem(), vals)
		}
		return s
	}
	t.newStruct = func(base error, vals []any) error {
		return iface(NewErrorWithData_struct(base, "message", mk(vals)))
	}
	t.addStruct = func(base error, vals []any) error { return iface(AddDataToError_struct(base, mk(vals))) }
	t.newParams = func(base error, mdt MissingDataTreatment, p ...any) error {
		return iface(NewErrorWithData_params[S](base, "message", ReplacePreviousData, mdt, p...))
	}
	t.newMap = func(base error, mdt MissingDataTreatment, m map[string]any) error {
		return iface(AddDataToError_map[S](base, ReplacePreviousData, mdt, m))
	}
	t.has = HasData[S]
	t.get = func(err error, mdt MissingDataTreatment) []any {
		s := GetData_struct[S](err, mdt)
		return t.read(reflect.ValueOf(&s).Elem())
	}
	t.method = func(err error) []any {
		s := err.(ErrorWithData[S]).GetData_struct()
		return t.read(reflect.ValueOf(&s).Elem())
	}
	t.as = func(err error, mdt MissingDataTreatment) (error, bool) {
		e, ok := AsErrorWithData[S](err, mdt)
		if !ok {
			return nil, false
		}
		return iface(e), true
	}
	t.del = func(err error, name string) error {
		return iface(DeleteParameterFromError[S](err, name, MissingDataAsZero))
	}
	return t
}

func good[S any](name string, hidden []string, fields ...at) *mtyp {
	return gen[S](name, true, hidden, fields...)
}
func bad[S any](name string, names ...string) *mtyp { return gen[S](name, false, names) }

type (
	mWide struct{ A, B, C, D, E, X, Y, MyInt, MyBytes, Reader, Err int }
	mOne  struct{ A int }

	MyInt   int
	MyBytes []byte
	myInt   int
	myErr   interface{ error }
	Err     interface{ error }

	inner struct {
		A int
		B string
	}
	Inner2 struct {
		C any
		D error
	}
	deep struct {
		inner
		E []byte
	}
	T  struct{ X int }
	WT struct{ T }

	m0 struct{}
	m1 struct{ A int }
	m2 struct{ A, B int }
	m3 struct{ inner }
	m4 struct {
		inner
		Inner2
		E *int
	}
	m5 struct { // A shadows inner.A
		inner
		A bool
	}
	m6 struct { // A shadows deep.inner.A
		A []byte
		deep
	}
	m7 struct { // X of its own shadows both
		T
		WT
		X string
	}
	m8 struct {
		MyInt
		A int
	}
	m9 struct {
		*MyInt
		MyBytes
		B string
	}
	m10 struct {
		io.Reader
		Err
		A int
	}
	m11 struct {
		A inner
		B struct{ x, y int }
		C map[string]int
		D func()
	}
	m12 struct{ deep }
	m13 struct {
		Inner2
		m14
		Y chan int
	}
	m14 struct {
		A int
		D string
	} // in m13, D is ambiguous: bad
	m15[P any] struct {
		A P
		B []P
	}
	m16 struct {
		struct17
		A any
	}
	struct17 struct {
		struct18
		B any
	}
	struct18 struct {
		struct19
		C any
	}
	struct19 struct{ A, B, C, D any }

	b1 struct{ a int }
	b2 struct {
		A int
		b string
	}
	b3 struct{ *inner }
	b4 struct {
		T
		WT
	}
	b5 struct {
		A int
		*b5
	}
	b6 struct {
		myInt
		A int
	}
	b7 struct {
		error
		A int
	}
	b8 struct {
		A, B int
		_    int
	}
	b9  struct{ b9a }
	b9a struct {
		A int
		b9b
	}
	b9b struct{ c int }
	b10 struct {
		inner
		m1
	} // A twice
	b11 struct {
		A int
		b11a
	}
	b11a struct{ *T }
	b12  struct{ *myInt }
	b13  struct {
		deep
		m1
	} // deep.inner.A against m1.A
	b14 struct {
		deep
		b14a
	} // deep.inner.A against b14a.m1.A
	b14a struct{ m1 }
	b15  struct {
		A, B, C, D int
		E          string
		*inner
	}
	b17 struct {
		A, B, E int
		*Inner2
	}
	b16 struct { // A shadows one of the two deep ones only
		b16a
		b14a
	}
	b16a struct {
		A int
		deep
	}
	m20 struct { // A shadows both deep ones
		deep
		A any
		b14a
	}
	m21a struct {
		MyInt string
		MyBytes
		Z int
	}
	m21 struct { // embedded fields that are no structs shadow and are shadowed
		MyInt
		m21a
		Z string
	}
	m22 struct { // shadowed by a later one
		m21a
		*MyInt
		MyBytes int
	}
	m23a struct {
		MyInt
		Q int
	}
	m23b struct {
		MyInt string
		R     int
	}
	b18 struct {
		*T
		Inner2
	}
	b19 struct {
		b11a
		Inner2
		E int
	}
	b20 struct {
		Inner2
		b20a
		m1
	}
	b20a struct {
		B string
		b11a
		T
	}
	b21 struct { // MyInt twice
		m23a
		m23b
	}
	mBig struct {
		F01, F02, F03, F04, F05, F06, F07, F08, F09, F10, F11, F12, F13, F14, F15, F16, F17, F18, F19, F20 int
		mBigIn
		G01, G02, G03, G04, G05, G06, G07, G08, G09, G10, G11, G12, G13, G14, G15, G16, G17, G18, G19, G20 string
	}
	mBigIn struct {
		H01, H02, H03, H04, H05, H06, H07, H08, H09, F20, H11, H12, H13, H14, H15, H16, H17, H18, H19, H20 []byte
	}
	bBig struct {
		mBig
		Z int
		bBigIn
	}
	bBigIn struct {
		Y   int
		H20 string // ambiguous
	}
	bBig2 struct {
		mBig
		z int
	}
	mDeep1 struct {
		mDeep2
		D1 int
		E1 string
	}
	mDeep2 struct {
		mDeep3
		D2 int
		E2 string
	}
	mDeep3 struct {
		mDeep4
		D3 int
		E3 string
	}
	mDeep4 struct {
		mDeep5
		D4 int
		E4 string
	}
	mDeep5 struct {
		mDeep6
		D5 int
		E5 string
	}
	mDeep6 struct {
		mDeep7
		D6 int
		E6 string
	}
	mDeep7 struct {
		mDeep8
		D7 int
		E7 string
	}
	mDeep8 struct {
		mDeep9
		D8 int
		E8 string
	}
	mDeep9 struct {
		D1, D9 int
		A      string
	}
	bDeep1 struct {
		mDeep2
		bDeep2
	}
	bDeep2 struct{ bDeep3 }
	bDeep3 struct{ bDeep4 }
	bDeep4 struct{ bDeep5 }
	bDeep5 struct{ bDeep6 }
	bDeep6 struct{ bDeep7 }
	bDeep7 struct{ bDeep8 }
	bDeep8 struct {
		B string
		*mDeep9
	}
	mTags struct {
		A int    `json:"-"`
		B string `json:"Foo,omitempty" C:"D"`
		C [3]int
		D float64
	}
)

func bigFields() (r []at) {
	for i := 1; i <= 20; i++ {
		n := fmt.Sprintf("%02d", i)
		r = append(r, f("F"+n, i-1), f("G"+n, 20+i))
		if i != 10 {
			r = append(r, f("H"+n, 20, i-1))
		}
	}
	return
}

func deepFields() (r []at) {
	ix := []int{}
	for i := 1; i <= 8; i++ {
		r = append(r, f(fmt.Sprintf("D%d", i), append(append([]int{}, ix...), 1)...))
		r = append(r, f(fmt.Sprintf("E%d", i), append(append([]int{}, ix...), 2)...))
		ix = append(ix, 0)
	}
	r = append(r, f("D9", append(append([]int{}, ix...), 1)...))
	return append(r, f("A", append(append([]int{}, ix...), 2)...))
}

// Types with the same names as others.
func namesakes() []*mtyp {
	type inner struct {
		C []byte
		A bool
		B string
	}
	type m0 struct{ B string }
	type m1 struct{ B, A int }
	type m2 struct {
		A int
		b string
	}
	type m3 struct{ inner }
	type b1 struct{ A string }
	type T struct{ Y int }
	type b4 struct {
		T
		WT
	}
	return []*mtyp{
		good[m0]("not so empty", nil, f("B", 0)),
		good[m1]("one and one more", []string{"C"}, f("B", 0), f("A", 1)),
		bad[m2]("two, one unexported", "A", "b"),
		good[m3]("embedded namesake", []string{"inner"}, f("C", 0, 0), f("A", 0, 1), f("B", 0, 2)),
		good[b1]("exported", []string{"a"}, f("A", 0)),
		good[b4]("doc's S, changed", []string{"T", "WT"}, f("Y", 0, 0), f("X", 1, 0, 0)),
	}
}

var mtyps = append(namesakes(), []*mtyp{
	good[m0]("empty", nil),
	good[m1]("one", nil, f("A", 0)),
	good[m2]("two", []string{"C"}, f("A", 0), f("B", 1)),
	good[m3]("embedded", []string{"inner"}, f("A", 0, 0), f("B", 0, 1)),
	good[m4]("embedded twice", []string{"inner", "Inner2"}, f("A", 0, 0), f("B", 0, 1), f("C", 1, 0), f("D", 1, 1), f("E", 2)),
	good[m5]("shadowed", []string{"inner"}, f("A", 1), f("B", 0, 1)),
	good[m6]("shadowed deeply", []string{"deep", "inner"}, f("A", 0), f("B", 1, 0, 1), f("E", 1, 1)),
	good[m7]("doc's S with X", []string{"T", "WT"}, f("X", 2)),
	good[m8]("embedded int", nil, f("MyInt", 0), f("A", 1)),
	good[m9]("embedded *int", nil, f("MyInt", 0), f("MyBytes", 1), f("B", 2)),
	good[m10]("embedded interfaces", nil, f("Reader", 0), f("Err", 1), f("A", 2)),
	good[m11]("odd fields", []string{"x"}, f("A", 0), f("B", 1), f("C", 2), f("D", 3)),
	good[m12]("deep", []string{"deep", "inner"}, f("A", 0, 0, 0), f("B", 0, 0, 1), f("E", 0, 1)),
	good[m15[int]]("generic int", nil, f("A", 0), f("B", 1)),
	good[m15[string]]("generic string", nil, f("A", 0), f("B", 1)),
	good[struct{ A, B int }]("unnamed", nil, f("A", 0), f("B", 1)),
	good[m16]("four levels", []string{"struct17", "struct19"}, f("A", 1), f("B", 0, 1), f("C", 0, 0, 1), f("D", 0, 0, 0, 3)),
	good[struct{ T }]("unnamed embedding", []string{"T"}, f("X", 0, 0)),
	bad[m13]("ambiguous", "C", "A", "D", "Y"),
	bad[b1]("unexported", "a"),
	bad[b2]("one unexported", "A", "b"),
	bad[b3]("embedded pointer", "A", "B", "inner"),
	bad[b4]("doc's S", "X", "T"),
	bad[b5]("recursive", "A", "b5"),
	bad[b6]("embedded unexported int", "A", "myInt"),
	bad[b7]("embedded error", "A", "error"),
	bad[b8]("blank", "A", "B", "_"),
	bad[b9]("unexported deeply", "A", "c"),
	bad[b10]("twice", "A", "B"),
	bad[b11]("embedded pointer deeply", "A", "X"),
	bad[b12]("embedded unexported pointer", "myInt"),
	bad[b13]("twice at different depth", "A", "B", "E"),
	bad[b14]("twice in depth", "A", "B", "E"),
	bad[b15]("embedded pointer among many", "A", "B", "E", "inner"),
	bad[b17]("embedded exported pointer among many", "A", "C", "Inner2"),
	bad[b16]("shadowed in one branch", "A", "B"),
	good[m20]("shadowed in two branches", []string{"deep", "inner", "m1"}, f("A", 1), f("B", 0, 0, 1), f("E", 0, 1)),
	good[m21]("shadowed by an embedded int", []string{"m21a"}, f("MyInt", 0), f("MyBytes", 1, 1), f("Z", 2)),
	good[m22]("shadowed by an embedded *int", []string{"m21a"}, f("MyInt", 1), f("MyBytes", 2), f("Z", 0, 2)),
	bad[b18]("embedded pointer before an embedded struct", "X", "T", "C", "D"),
	bad[b19]("embedded pointer deeply before an embedded struct", "X", "C", "D", "E"),
	bad[b20]("embedded pointer deeply between embedded structs", "X", "C", "D", "B"),
	bad[b21]("embedded int against int", "MyInt", "Q", "R"),
	good[mBig]("59 fields", []string{"mBigIn", "H10", "F21", "G00"}, bigFields()...),
	bad[bBig]("60 fields, one ambiguous", "F01", "F20", "G20", "H20", "Y", "Z"),
	bad[bBig2]("59 fields, one unexported", "F01", "F20", "G20", "H20", "z"),
	good[mDeep1]("nine levels", []string{"mDeep9"}, deepFields()...),
	bad[bDeep1]("embedded pointer in the eighth level", "A", "B", "D3"),
	good[mTags]("tags", []string{"Foo"}, f("A", 0), f("B", 1), f("C", 2), f("D", 3)),
	bad[int]("int"),
	bad[*m1]("pointer to struct", "A"),
	bad[[]m1]("slice", "A"),
	bad[map[string]any]("map", "A"),
	bad[any]("any"),
	bad[error]("error"),
	bad[func()]("func"),
}...)

// value makes a value for a field; nil stands for the zero value.
func fieldValue(t reflect.Type, i int) any {
	i &= 3
	switch t.Kind() {
	case reflect.Int:
		v := reflect.New(t).Elem()
		v.SetInt(int64(i))
		return v.Interface()
	case reflect.Bool:
		return i%2 == 0
	case reflect.String:
		return []string{"", "x", "yy", "%v{A}"}[i]
	case reflect.Slice:
		if i == 0 {
			return reflect.Zero(t).Interface()
		}
		return reflect.MakeSlice(t, i-1, i-1).Interface()
	case reflect.Map:
		if i == 0 {
			return reflect.Zero(t).Interface()
		}
		return reflect.MakeMap(t).Interface()
	case reflect.Pointer:
		if i < 2 {
			return reflect.Zero(t).Interface()
		}
		return reflect.New(t.Elem()).Interface()
	case reflect.Interface:
		if i == 0 {
			return nil
		}
		if t == tAny {
			return []any{nil, 5, "z", 2.5}[i]
		}
		return anyImpl
	case reflect.Struct:
		return reflect.New(t).Elem().Interface()
	}
	return reflect.Zero(t).Interface()
}

// impl implements all interfaces used.
type impl struct{}

func (impl) Read(p []byte) (int, error) { return 0, io.EOF }
func (impl) Error() string              { return "impl" }

var anyImpl = impl{}

// same compares field values, where functions and channels are only ever nil.
func same(a, b any) bool { return reflect.DeepEqual(a, b) }

var (
	plainBase = errors.New("base")
	fewParams = NewErrorWithData_any_params(nil, "few", ReplacePreviousData, "A", 1)
)

// metaCtx is a thread of the scenario.
type metaCtx struct {
	x     *core.X
	texts map[int]string // what StructSuitableForErrorsWithData said
	held  []heldErr
	box   *metaBox
}

type heldErr struct {
	t    *mtyp
	e    error
	vals []any
}

type metaBox struct {
	mu   rt.Mutex
	held []heldErr
}

// refused runs g, which has to panic for rejected types.
func (c *metaCtx) refused(t *mtyp, what string, want bool, g func()) (ran bool) {
	v, panicked := core.Try(g)
	if panicked != want {
		if !t.ok {
			c.x.Check(false, "rejected type accepted", "%s did not refuse type %v (%s)", what, t.typ, t.name)
		}
		c.x.Check(false, "wrong answer", "%s for %v (%s): panicked is %v (%v), expected %v", what, t.typ, t.name, panicked, v, want)
	}
	if panicked {
		if _, ok := v.(error); !ok {
			if _, ok = v.(string); !ok {
				c.x.Check(false, "wrong panic", "%s for %v: %v", what, t.typ, v)
			}
		}
		if rtErr, ok := v.(interface{ RuntimeError() }); ok {
			c.x.Check(false, "wrong panic", "%s for %v: %v", what, t.typ, rtErr)
		}
		if !t.ok {
			c.x.Fault("caller panics on rejected type")
		}
	}
	return !panicked
}

func (c *metaCtx) suitable(i int) {
	t := mtyps[i]
	err := t.suitable()
	if (err == nil) != t.ok {
		c.x.Check(false, "wrong answer", "StructSuitableForErrorsWithData for %v (%s): %v", t.typ, t.name, err)
	}
	if err == nil {
		return
	}
	text := err.Error()
	if old, ok := c.texts[i]; ok && old != text {
		c.x.Check(false, "changed answer", "StructSuitableForErrorsWithData for %v says %q, formerly %q", t.typ, text, old)
	}
	c.texts[i] = text
}

func (t *mtyp) names() (l []string) {
	for _, fl := range t.fields {
		l = append(l, fl.name)
	}
	return
}

func (t *mtyp) hasName(n string) bool {
	for _, fl := range t.fields {
		if fl.name == n {
			return true
		}
	}
	return false
}

func (t *mtyp) values(r *core.Rng) (vals []any) {
	for _, fl := range t.fields {
		vals = append(vals, fieldValue(fl.typ, r.N(4)))
	}
	return
}

// zeroed gives values as the struct has them.
func (t *mtyp) compare(x *core.X, what string, got, want []any) {
	for i, fl := range t.fields {
		if w := want[i]; !same(got[i], w) {
			x.Check(false, "wrong data", "%s for %v (%s): field %s is %#v, was put in as %#v", what, t.typ, t.name, fl.name, got[i], w)
		}
	}
}

func (c *metaCtx) hold(h heldErr) {
	if len(c.held) < 12 {
		c.held = append(c.held, h)
	}
}

// mapOf gives what an error made from the values contains.
func (t *mtyp) mapOf(vals []any) map[string]any {
	m := map[string]any{}
	for i, fl := range t.fields {
		m[fl.name] = vals[i]
	}
	return m
}

func (c *metaCtx) run(op core.Op) {
	x := c.x
	i := int(uint64(op.Arg(0)) % uint64(len(mtyps)))
	t := mtyps[i]
	r := core.NewRng(uint64(op.Arg(1)))
	x.Probe("use of " + t.name)
	switch op.K {
	case "suitable":
		c.suitable(i)
	case "all":
		l := t.names()
		for k := len(l) - 1; k > 0; k-- {
			j := r.N(k + 1)
			l[k], l[j] = l[j], l[k]
		}
		want := false
		switch r.N(6) {
		case 0:
			l = append(l, t.hidden[r.N(len(t.hidden))])
			want = true
		case 1:
			if len(l) > 0 {
				l = l[1:]
				want = true
			}
		case 2:
			if len(l) > 0 {
				l = append(l, l[r.N(len(l))])
				want = true
			}
		case 3:
			if len(l) > 0 { // right number, wrong name
				l[r.N(len(l))] = t.hidden[r.N(len(t.hidden))]
				want = true
			}
		}
		c.refused(t, fmt.Sprintf("CheckParametersForStruct_all(%q)", l), want || !t.ok, func() { t.checkAll(l) })
	case "one":
		n := ""
		if len(t.fields) > 0 && r.P(2, 3) {
			n = t.fields[r.N(len(t.fields))].name
		} else {
			n = t.hidden[r.N(len(t.hidden))]
		}
		c.refused(t, fmt.Sprintf("CheckParameterForStruct(%q)", n), !t.hasName(n), func() { t.checkOne(n) })
	case "subtype":
		want := !t.ok
		for _, n := range t.names() {
			if !mtWide[n] {
				want = true
			}
		}
		c.refused(t, "CheckIsSubtype[S, mWide]", want, t.within)
		c.refused(t, "CheckIsSubtype[mOne, S]", !t.hasName("A"), t.around)
	case "struct", "params", "map":
		vals := t.values(r)
		var base error
		if r.P(1, 3) {
			base = plainBase
		}
		var e error
		ran := c.refused(t, "creating an error", !t.ok, func() {
			switch {
			case op.K == "struct" && base != nil && r.P(1, 2):
				e = t.addStruct(base, vals)
			case op.K == "struct":
				e = t.newStruct(base, vals)
			case op.K == "map":
				m := t.mapOf(vals)
				if base == nil {
					base = plainBase
				}
				e = t.newMap(base, EnsureDataIsPresent, m)
				spoil(m)
			default:
				var p []any
				for k, fl := range t.fields {
					p = append(p, fl.name, vals[k])
				}
				e = t.newParams(base, EnsureDataIsPresent, p...)
				spoilList(p)
			}
		})
		if ran {
			c.judge(heldErr{t, e, vals}, r.N(4))
			c.hold(heldErr{t, e, vals})
		}
	case "missing":
		// data lacks a field, or has the wrong type
		vals := t.values(r)
		if t.ok && len(t.fields) == 0 {
			return
		}
		m := t.mapOf(vals)
		k, wrong := 0, false
		if t.ok {
			k = r.N(len(t.fields))
			if delete(m, t.fields[k].name); r.P(1, 2) {
				if ft := t.fields[k].typ; ft.Kind() != reflect.Interface {
					m[t.fields[k].name] = struct{ z uint16 }{5}
					wrong = true
				}
			}
		}
		mdt, fill := EnsureDataIsPresent, r.P(1, 2)
		if fill {
			mdt = MissingDataAsZero
		}
		want := !t.ok || wrong || !fill
		e := NewErrorWithData_any_map(nil, "m", ReplacePreviousData, m)
		var has, ok bool
		var got []any
		var conv error
		if c.refused(t, "HasData", !t.ok, func() { has = t.has(e) }) && has {
			x.Check(false, "wrong answer", "HasData[%v] (%s) is true without suitable data for %s", t.typ, t.name, t.fields[k].name)
		}
		ran := c.refused(t, "GetData_struct", want, func() { got = t.get(e, mdt) })
		if ran {
			vals[k] = reflect.Zero(t.fields[k].typ).Interface()
			t.compare(x, "GetData_struct with a missing field", got, vals)
		}
		if c.refused(t, "AsErrorWithData", !t.ok, func() { conv, ok = t.as(e, mdt) }) {
			x.Check(ok == !want, "wrong answer", "AsErrorWithData[%v] (%s): %v, without suitable data for %s, filling: %v", t.typ, t.name, ok, t.fields[k].name, fill)
			if ok {
				c.judge(heldErr{t, conv, vals}, r.N(4))
			}
		}
		ran = c.refused(t, "NewErrorWithData_map", want, func() { conv = t.newMap(plainBase, mdt, m) })
		if ran {
			c.judge(heldErr{t, conv, vals}, r.N(4))
			c.hold(heldErr{t, conv, vals})
		}
	case "foreign":
		// errors made for another type or for none
		e := plainBase
		var want bool // suits
		switch r.N(3) {
		case 0:
			want = t.ok && len(t.fields) == 0
		case 1:
			e = fewParams
			want = t.ok
			for _, fl := range t.fields {
				want = want && fl.name == "A" && (fl.typ == tInt || fl.typ == tAny)
			}
		case 2:
			want = t.ok && len(t.fields) == 0
			e = nil
		}
		var has bool
		if c.refused(t, "HasData", !t.ok, func() { has = t.has(e) }) {
			x.Check(has == want, "wrong answer", "HasData[%v] (%s) of %v: %v", t.typ, t.name, e, has)
		}
		c.refused(t, "GetData_struct", !want, func() { t.get(e, EnsureDataIsPresent) })
	case "judge":
		c.box.mu.Lock()
		var h heldErr
		if n := len(c.box.held); n > 0 {
			h = c.box.held[r.N(n)]
		}
		c.box.mu.Unlock()
		if len(c.held) > 0 && (h.t == nil || r.P(1, 2)) {
			h = c.held[r.N(len(c.held))]
		} else if h.t != nil {
			x.Probe("error handed over")
		}
		if h.t != nil {
			c.judge(h, r.N(4))
		}
	case "give":
		c.box.mu.Lock()
		if n := len(c.held); n > 0 && len(c.box.held) < 20 {
			c.box.held = append(c.box.held, c.held[n-1])
		}
		c.box.mu.Unlock()
	}
}

// judge compares an error with what was put in.
func (c *metaCtx) judge(h heldErr, way int) {
	x, t := c.x, h.t
	ewd, isData := h.e.(ErrorWithData_any)
	if !isData {
		x.Check(false, "wrong data", "error for %v carries no data", t.typ)
	}
	switch way {
	case 0:
		t.compare(x, "GetData_struct", t.get(h.e, EnsureDataIsPresent), h.vals)
	case 1:
		t.compare(x, "method GetData_struct", t.method(h.e), h.vals)
	case 2:
		m := ewd.GetData_map()
		if len(m) != len(t.fields) {
			x.Check(false, "wrong data", "error for %v (%s) contains %v", t.typ, t.name, m)
		}
		got := make([]any, len(t.fields))
		for i, fl := range t.fields {
			v, ok := m[fl.name]
			if !ok {
				x.Check(false, "wrong data", "error for %v (%s) lacks %s", t.typ, t.name, fl.name)
			}
			if got[i] = v; v == nil && fl.typ.Kind() != reflect.Interface {
				x.Check(false, "wrong data", "error for %v (%s) has an untyped nil as %s", t.typ, t.name, fl.name)
			}
		}
		t.compare(x, "GetData_map", got, h.vals)
		spoil(m)
	case 3:
		if !t.has(h.e) {
			x.Check(false, "wrong answer", "HasData[%v] (%s) is false for an error made from this struct", t.typ, t.name)
		}
		if e, ok := t.as(h.e, EnsureDataIsPresent); !ok {
			x.Check(false, "wrong answer", "AsErrorWithData[%v] (%s) refused an error made from this struct", t.typ, t.name)
		} else {
			t.compare(x, "GetData_struct of converted error", t.method(e), h.vals)
		}
	}
}

var mtWide = map[string]bool{"A": true, "B": true, "C": true, "D": true, "E": true, "X": true, "Y": true, "MyInt": true, "MyBytes": true, "Reader": true, "Err": true}

var metaKinds = []string{"suitable", "suitable", "suitable", "all", "all", "one", "subtype", "struct", "struct", "params", "map", "missing", "missing", "foreign", "judge", "judge", "give"}

func genMeta(r *core.Rng, thorough bool) *core.Plan {
	p := &core.Plan{Cfg: map[string]int64{"seed": int64(r.N(1 << 30))}}
	var few []int
	for n := r.Pick(1, 1, 2, 2, 3, 4); n > 0; n-- {
		few = append(few, r.N(len(mtyps)))
	}
	for n := r.Pick(1, 2, 2, 3, 3, 4); n > 0; n-- {
		var ops []core.Op
		for k := r.In(1, 7); k > 0; k-- {
			i := few[r.N(len(few))]
			if r.P(1, 12) {
				i = r.N(len(mtyps))
			}
			ops = append(ops, core.Op{K: metaKinds[r.N(len(metaKinds))], A: []int64{int64(i), int64(r.N(1 << 40))}})
		}
		p.Threads = append(p.Threads, ops)
	}
	return p
}

func execMeta(x *core.X) {
	box := &metaBox{}
	var fns []func()
	var ctxs []*metaCtx
	for t := range x.Threads {
		ops := x.Threads[t]
		c := &metaCtx{x: x, texts: map[int]string{}, box: box}
		ctxs = append(ctxs, c)
		fns = append(fns, func() {
			for _, o := range ops {
				c.run(o)
			}
		})
	}
	x.Go(fns...)
	x.Seq(func() {
		// all got and get the same answers
		last := &metaCtx{x: x, texts: map[int]string{}, box: box}
		used := map[int]bool{}
		for t, c := range ctxs {
			for i, s := range c.texts {
				if old, ok := last.texts[i]; ok && old != s {
					x.Check(false, "changed answer", "StructSuitableForErrorsWithData for %v says %q and %q", mtyps[i].typ, s, old)
				}
				last.texts[i] = s
			}
			for _, o := range x.Threads[t] {
				used[int(uint64(o.Arg(0))%uint64(len(mtyps)))] = true
			}
		}
		for i := range mtyps {
			if used[i] {
				last.suitable(i)
				for k, kind := range []string{"all", "one", "subtype", "struct", "missing", "foreign"} {
					last.run(core.Op{K: kind, A: []int64{int64(i), x.Cfg["seed"] + int64(k)}})
				}
			}
		}
		for _, c := range ctxs {
			for _, h := range c.held {
				for k := 0; k < 4; k++ {
					last.judge(h, k)
				}
			}
		}
	})
}

func init() {
	core.Register(&core.Scenario{Name: "structmeta", Props: []string{"P05"}, Gen: genMeta, Exec: execMeta})
}
