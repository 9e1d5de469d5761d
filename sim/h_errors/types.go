//go:build go1.22

package main

import (
	"reflect"

	. "github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
)

// Struct types that carry data.

type fld struct {
	name string
	typ  reflect.Type
}

func ty[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

// styp is a struct type together with the generic functions instantiated for it.
type styp struct {
	name   string
	fields []fld

	newStruct func(base error, msg string, vals map[string]any, mode ...PreviousDataTreatment) ErrorWithData_any
	addStruct func(base error, vals map[string]any, mode ...PreviousDataTreatment) ErrorWithData_any
	newParams func(base error, msg string, mode PreviousDataTreatment, mdt MissingDataTreatment, p ...any) ErrorWithData_any
	newMap    func(base error, msg string, mode PreviousDataTreatment, mdt MissingDataTreatment, m map[string]any) ErrorWithData_any
	addParams func(base error, mode PreviousDataTreatment, mdt MissingDataTreatment, p ...any) ErrorWithData_any
	addMap    func(base error, mode PreviousDataTreatment, mdt MissingDataTreatment, m map[string]any) ErrorWithData_any
	del       func(base error, name string, mdt MissingDataTreatment) ErrorWithData_any
	as        func(err error, mdt MissingDataTreatment) (ErrorWithData_any, bool)
	has       func(err error) bool
	get       func(err error, mdt MissingDataTreatment) map[string]any
	method    func(err error) (map[string]any, bool)
	box       func(err error) error
	unbox     func(err error) (error, bool)
	suitable  func() error
	checkAll  func(l []string)
	checkOne  func(n string)
	within    func() // CheckIsSubtype[S, wide]
}

// iface converts without making a non-nil interface from a nil one.
func iface[S any](e ErrorWithData[S]) ErrorWithData_any {
	if e == nil {
		return nil
	}
	return e
}

func set[T any](p *T, v any) {
	if v != nil {
		*p = v.(T)
	}
}

func mk[S any](name string, fields []fld, to func(m map[string]any, s *S), from func(s *S) map[string]any) *styp {
	return &styp{
		name:   name,
		fields: fields,
		newStruct: func(base error, msg string, vals map[string]any, mode ...PreviousDataTreatment) ErrorWithData_any {
			var s, zero S
			to(vals, &s)
			e := NewErrorWithData_struct(base, msg, &s, mode...)
			s = zero
			return iface(e)
		},
		addStruct: func(base error, vals map[string]any, mode ...PreviousDataTreatment) ErrorWithData_any {
			var s, zero S
			to(vals, &s)
			e := AddDataToError_struct(base, &s, mode...)
			s = zero
			return iface(e)
		},
		newParams: func(base error, msg string, mode PreviousDataTreatment, mdt MissingDataTreatment, p ...any) ErrorWithData_any {
			return iface(NewErrorWithData_params[S](base, msg, mode, mdt, p...))
		},
		newMap: func(base error, msg string, mode PreviousDataTreatment, mdt MissingDataTreatment, m map[string]any) ErrorWithData_any {
			return iface(NewErrorWithData_map[S](base, msg, mode, mdt, m))
		},
		addParams: func(base error, mode PreviousDataTreatment, mdt MissingDataTreatment, p ...any) ErrorWithData_any {
			return iface(AddDataToError_params[S](base, mode, mdt, p...))
		},
		addMap: func(base error, mode PreviousDataTreatment, mdt MissingDataTreatment, m map[string]any) ErrorWithData_any {
			return iface(AddDataToError_map[S](base, mode, mdt, m))
		},
		del: func(base error, name string, mdt MissingDataTreatment) ErrorWithData_any {
			return iface(DeleteParameterFromError[S](base, name, mdt))
		},
		as: func(err error, mdt MissingDataTreatment) (ErrorWithData_any, bool) {
			e, ok := AsErrorWithData[S](err, mdt)
			return iface(e), ok
		},
		has: func(err error) bool { return HasData[S](err) },
		get: func(err error, mdt MissingDataTreatment) map[string]any {
			s := GetData_struct[S](err, mdt)
			return from(&s)
		},
		method: func(err error) (map[string]any, bool) {
			e, ok := err.(ErrorWithData[S])
			if !ok {
				return nil, false
			}
			s := e.GetData_struct()
			return from(&s), true
		},
		box: func(err error) error {
			if e, ok := err.(ErrorWithData[S]); ok {
				return MakeErrorIncomparable_struct[S](e)
			}
			return nil
		},
		unbox: func(err error) (error, bool) {
			if e, ok := err.(interface {
				AsComparable_typed() ErrorWithData[S]
			}); ok {
				return e.AsComparable_typed(), true
			}
			if e, ok := err.(ErrorWithData[S]); ok {
				return UnboxError_struct[S](e), true
			}
			return nil, false
		},
		suitable: StructSuitableForErrorsWithData[S],
		checkAll: CheckParametersForStruct_all[S],
		checkOne: CheckParameterForStruct[S],
		within:   CheckIsSubtype[S, wide],
	}
}

type (
	s0 struct{}
	s1 struct{ A int }
	s2 struct {
		A int
		B string
	}
	s3 struct {
		s1
		C bool
	}
	s4 struct {
		A string
		C any
	}
	s5 struct {
		Foo []byte
		D   *int
	}
	s6 struct {
		D error
		B string
	}
	s7 struct { // A shadows s1.A
		s1
		A string
		D byte
	}
	s8 struct {
		In s1
		B  pair
	}
)

// wide has fields of all names used by s0 to s8, as far as CheckIsSubtype goes.
type wide struct {
	A, B, C, D, Foo, In int
}

func fl(l ...any) (r []fld) {
	for i := 0; i < len(l); i += 2 {
		r = append(r, fld{l[i].(string), l[i+1].(reflect.Type)})
	}
	return
}

var tInt, tStr, tBool, tAny, tErr, tBytes, tPtr, tByte = ty[int](), ty[string](), ty[bool](), ty[any](), ty[error](), ty[[]byte](), ty[*int](), ty[byte]()

var styps = []*styp{
	mk("s0", nil, func(m map[string]any, s *s0) {}, func(s *s0) map[string]any { return map[string]any{} }),
	mk("s1", fl("A", tInt), func(m map[string]any, s *s1) { set(&s.A, m["A"]) }, func(s *s1) map[string]any { return map[string]any{"A": s.A} }),
	mk("s2", fl("A", tInt, "B", tStr), func(m map[string]any, s *s2) { set(&s.A, m["A"]); set(&s.B, m["B"]) },
		func(s *s2) map[string]any { return map[string]any{"A": s.A, "B": s.B} }),
	mk("s3", fl("A", tInt, "C", tBool), func(m map[string]any, s *s3) { set(&s.A, m["A"]); set(&s.C, m["C"]) },
		func(s *s3) map[string]any { return map[string]any{"A": s.A, "C": s.C} }),
	mk("s4", fl("A", tStr, "C", tAny), func(m map[string]any, s *s4) { set(&s.A, m["A"]); s.C = m["C"] },
		func(s *s4) map[string]any { return map[string]any{"A": s.A, "C": s.C} }),
	mk("s5", fl("Foo", tBytes, "D", tPtr), func(m map[string]any, s *s5) { set(&s.Foo, m["Foo"]); set(&s.D, m["D"]) },
		func(s *s5) map[string]any { return map[string]any{"Foo": s.Foo, "D": s.D} }),
	mk("s6", fl("D", tErr, "B", tStr), func(m map[string]any, s *s6) { set(&s.D, m["D"]); set(&s.B, m["B"]) },
		func(s *s6) map[string]any { return map[string]any{"D": ifc(s.D), "B": s.B} }),
	mk("s7", fl("A", tStr, "D", tByte), func(m map[string]any, s *s7) { s.s1.A = 99; set(&s.A, m["A"]); set(&s.D, m["D"]) },
		func(s *s7) map[string]any { return map[string]any{"A": s.A, "D": s.D} }),
	mk("s8", fl("In", ty[s1](), "B", ty[pair]()), func(m map[string]any, s *s8) { set(&s.In, m["In"]); set(&s.B, m["B"]) },
		func(s *s8) map[string]any { return map[string]any{"In": s.In, "B": s.B} }),
}

func ifc(e error) any {
	if e == nil {
		return nil
	}
	return e
}

func nilable(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Interface, reflect.Pointer, reflect.Slice, reflect.Map, reflect.Func, reflect.Chan:
		return true
	}
	return false
}

// suits says whether a struct can be made of the data; with fill, what is missing is taken as zero and added to m.
func (t *styp) suits(m map[string]any, fill bool) bool {
	for _, f := range t.fields {
		v, ok := m[f.name]
		switch {
		case !ok && !fill:
			return false
		case !ok:
			m[f.name] = reflect.Zero(f.typ).Interface()
		case v == nil:
			if !nilable(f.typ) {
				return false
			}
		case f.typ.Kind() == reflect.Interface:
			if !reflect.TypeOf(v).AssignableTo(f.typ) {
				return false
			}
		case reflect.TypeOf(v) != f.typ:
			return false
		}
	}
	return true
}

// content is what a struct made of the data contains.
func (t *styp) content(m map[string]any) map[string]any {
	r := map[string]any{}
	for _, f := range t.fields {
		v := m[f.name]
		if v == nil {
			v = reflect.Zero(f.typ).Interface()
		}
		r[f.name] = v
	}
	return r
}

// gen makes field values; what the struct does not mention stays zero.
func (t *styp) gen(pick func(n int) int) map[string]any {
	m := map[string]any{}
	for _, f := range t.fields {
		i := pick(4)
		var v any
		switch f.typ {
		case tInt:
			v = i
		case tStr:
			v = []string{"", "x", "yy", "%v{A}"}[i]
		case tBool:
			v = i%2 == 0
		case tAny:
			v = []any{nil, 5, "z", 2.5}[i]
		case tErr:
			v = []any{nil, theErr, theErr, nil}[i]
		case tBytes:
			v = []any{[]byte(nil), []byte{}, []byte{1}, []byte{2, 3}}[i]
		case tPtr:
			v = (*int)(nil)
		case tByte:
			v = byte(i)
		case ty[s1]():
			v = s1{i}
		case ty[pair]():
			v = pair{i, "p"}
		}
		m[f.name] = v
	}
	return m
}
