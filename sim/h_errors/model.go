//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"reflect"
	"strings"
	"time"

	. "github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/core"
	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/rt"
)

// Model of errors with data: what each error holds and prints follows from how it was made.

// node is a part of a message.
type node struct {
	k    int // nLit...
	dol  bool
	text string // literal text, verb or condition
	name string
	sub  []node
}

const (
	nLit = iota
	nFmt
	nParent
	nCond
)

// def describes an error. It is never modified once other threads may see it.
type def struct {
	err   error
	box   error // boxed version, nil if there is none
	plain error // boxed as plain error
	base  *def  // wrapped error
	keepB bool  // wraps base for sure

	foreign bool   // not made by the package
	custom  bool   // foreign, but with data
	opaque  bool   // an error value exported by another package
	prefix  string // text of foreign errors
	src     string // for messages
	flaky   *flaky

	msg       []node
	malformed bool
	params    map[string]any // data, inherited by foreign errors
	st        *styp          // static type, nil: ErrorWithData_any or foreign
	remake    func(base error) error
}

// interpolater says whether the error supports $w.
func (d *def) interpolater() bool { return !d.foreign || d.custom }

// data is the error's data.
func (d *def) data() map[string]any {
	if d.params == nil {
		return map[string]any{}
	}
	return d.params
}

func (d *def) anyMalformed() bool {
	return d != nil && (d.malformed || d.base.anyMalformed())
}

func (d *def) anyOpaque() bool {
	return d != nil && (d.opaque || d.base.anyOpaque())
}

func (d *def) anyFlaky() bool {
	return d != nil && (d.flaky != nil || d.base.anyFlaky())
}

// print gives the text; passed == nil: own data.
func (d *def) print(passed map[string]any) string {
	if d.foreign {
		if d.custom {
			if passed == nil {
				passed = d.data()
			}
			return d.prefix + customText(passed)
		}
		if d.base != nil {
			return d.prefix + d.base.print(nil)
		}
		return d.prefix
	}
	if passed == nil {
		passed = d.data()
	}
	var s strings.Builder
	d.eval(d.msg, passed, &s)
	return s.String()
}

func isSel(name string) bool { return strings.HasPrefix(name, "!") }

func (d *def) eval(l []node, passed map[string]any, s *strings.Builder) {
	for _, n := range l {
		sign, m := "%", d.data()
		if n.dol {
			sign, m = "$", passed
		}
		switch n.k {
		case nLit:
			s.WriteString(n.text)
		case nFmt:
			verb := n.text
			if verb == "" {
				verb = "v"
			}
			if isSel(n.name) {
				fmt.Fprintf(s, "%"+verb, m)
			} else if v, ok := m[n.name]; ok {
				fmt.Fprintf(s, "%"+verb, v)
			} else {
				s.WriteString(sign + verb + "!<missing value>")
			}
		case nParent:
			switch {
			case d.base == nil:
				s.WriteString(sign + "w(<nil>)")
			case !n.dol:
				s.WriteString(d.base.print(nil))
			case !d.base.interpolater():
				s.WriteString("<$w is not supported by base error!>" + d.base.print(nil))
			default:
				s.WriteString(d.base.print(passed))
			}
		case nCond:
			if (len(m) == 0) == (n.text == ConditionEmptyMap) {
				d.eval(n.sub, passed, s)
			}
		}
	}
}

// fine says whether printing finds what the text refers to, if $ refers to passed; passed == nil: $ is not looked at ("base").
func (d *def) fine(passed map[string]any) bool {
	if d.foreign {
		return true
	}
	return !d.malformed && d.fineList(d.msg, passed)
}

func (d *def) fineList(l []node, passed map[string]any) bool {
	for _, n := range l {
		m := d.data()
		if n.dol {
			m = passed
		}
		ok := true
		switch n.k {
		case nFmt:
			if !isSel(n.name) && m != nil {
				_, ok = m[n.name]
			}
		case nParent:
			switch {
			case d.base == nil:
				ok = false
			case !n.dol:
				ok = !d.base.interpolater() || d.base.fine(d.base.data())
			default:
				ok = d.base.interpolater() && d.base.fine(passed)
			}
		case nCond:
			if m == nil || (len(m) == 0) == (n.text == ConditionEmptyMap) {
				ok = d.fineList(n.sub, passed)
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// twin makes the error once more.
func (d *def) twin() error {
	var b error
	if d.base != nil {
		b = d.base.twin()
	}
	return d.remake(b)
}

// descends says whether errors.Is(d, a) is promised.
func (d *def) descends(a *def) bool {
	for d != nil {
		if d == a {
			return true
		}
		if !d.keepB {
			if d.base == nil || d.base == a {
				return false
			}
			d = d.base.base
			continue
		}
		d = d.base
	}
	return false
}

// related says whether errors.Is(d, a) is possible.
func (d *def) related(a *def) bool {
	for ; d != nil; d = d.base {
		if d == a {
			return true
		}
	}
	return false
}

// Messages.

var names = []string{"A", "B", "C", "D", "Foo", "Äx", "E_1", "ALongParameterName"}
var oddNames = []string{"low", "with space", "", "A.B", "%v", "!m"}
var selNames = []string{"!m", "!map", "!parameters", "!params"}
var verbs = []string{"", "", "v", "v", "d", "x", "s", "q", "+v", "#v", "T", "5d", "08.3f", "-6v", "U"}

var litParts = []string{"abc", " ", "x y", "%", "$", "{", "}", `\`, "\n", "ü", "w", "!", "m>0", "100%", "{A}"}

// genMsg makes a message that is well-formed. Whether everything it refers to exists, is left to chance.
func genMsg(r *core.Rng, depth int, based bool) (l []node) {
	for n := r.Pick(1, 1, 2, 2, 3, 4); n > 0; n-- {
		switch k := r.N(10); {
		case k < 3:
			l = append(l, node{k: nLit, text: litParts[r.N(len(litParts))] + litParts[r.N(len(litParts))]})
		case k < 6:
			nd := node{k: nFmt, dol: r.P(1, 2), text: verbs[r.N(len(verbs))], name: names[r.N(len(names))]}
			if r.P(1, 8) {
				nd.name = selNames[r.N(4)]
			}
			l = append(l, nd)
		case k < 8:
			if based || r.P(1, 10) {
				l = append(l, node{k: nParent, dol: r.P(2, 3)})
			}
		default:
			if depth < 3 {
				c := ConditionEmptyMap
				if r.P(2, 3) {
					c = ConditionNonEmptyMap
				}
				l = append(l, node{k: nCond, dol: r.P(1, 2), text: c, sub: genMsg(r, depth+1, based)})
			}
		}
	}
	if depth == 0 && len(l) == 0 {
		l = []node{{k: nLit, text: "error"}}
	}
	if depth == 0 && r.P(1, 40) { // nested deeply
		for n := r.Pick(4, 8, 16, 30); n > 0; n-- {
			c := ConditionNonEmptyMap
			if r.P(1, 16) {
				c = ConditionEmptyMap
			}
			l = []node{{k: nLit, text: "n"}, {k: nCond, dol: r.P(1, 2), text: c, sub: l}}
		}
	}
	if depth == 0 && r.P(1, 400) {
		l = append(l, node{k: nLit, text: strings.Repeat("long ", r.Pick(50, 1000))})
	}
	return
}

func renderMsg(l []node, r *core.Rng) string {
	var s strings.Builder
	for _, n := range l {
		sign := "%"
		if n.dol {
			sign = "$"
		}
		switch n.k {
		case nLit:
			for _, c := range n.text {
				switch {
				case c == '%' && r.P(1, 2):
					s.WriteString("%%")
				case strings.ContainsRune(`%${}\`, c):
					s.WriteString(`\` + string(c))
				default:
					s.WriteRune(c)
				}
			}
		case nFmt:
			s.WriteString(sign + n.text + "{" + n.name + "}")
		case nParent:
			s.WriteString(sign + "w")
		case nCond:
			s.WriteString(sign + "!" + n.text + "{" + renderMsg(n.sub, r) + "}")
		}
	}
	return s.String()
}

var broken = []string{"% ", "$v ", "%v{ ", "%v{lower}", "%v{A ", "} ", "{ ", "%!bad{x}", "$!bad{%v{A}}", "%!m>0{$v{bad name}}", "%!m=0{$v{bad name}}",
	"%!m>0{%!nope{y}}", "$!m=0{x%!nope{y}z}", "$!m=0 ", "%!m>0{$!m=0{", "$!m=0{%!nope{%!m>0{%v{A} ", `%v\%{A}`, "%v{!foo}", "$s{A.B}", "%!m>0{%!m>0{%!m>0{%v{z}}}}", "%!m=0{ ", "$!{x} "}

// Pieces of messages that are put together without regard to the language.
var soup = []string{"%", "$", "%!", "$!", "{", "}", "w", "%w", "$w", "m>0", "m=0", "%v{A}", "$v{A", "%!m>0{", "$!m=0{", "A", "z", "!", " ", "%{", "${", "%v{!m}", "%v{}", "\\\\", "\\%", "\\{", "\\}", "\\x", "v", "é"}

// Values.

type pair struct {
	X int
	Y string
}

var theErr = errors.New("some error")

// value number i. Values are never modified, but what is behind slices belongs to the value.
func value(i int) any {
	switch i % 15 {
	case 0:
		return i / 15
	case 1:
		return fmt.Sprintf("str%d", i/15)
	case 2:
		return i/15%2 == 0
	case 3:
		return byte(i / 15)
	case 4:
		return []byte{byte(i / 15), 2, 3}
	case 5:
		return nil
	case 6:
		return (*int)(nil)
	case 7:
		return theErr
	case 8:
		return time.Duration(i / 15)
	case 9:
		return pair{i / 15, "y"}
	case 10:
		return [2]int{i / 15, 7}
	case 11:
		return float64(i/15) / 2
	case 12:
		return []byte(nil)
	case 13:
		return 'ü' + rune(i/15)
	}
	return 7
}

func comparable(v any) bool { return v == nil || reflect.TypeOf(v).Comparable() }

// clone copies what is behind slices.
func cloneVal(v any) any {
	if b, ok := v.([]byte); ok && b != nil {
		return append([]byte{}, b...)
	}
	return v
}

func sameVal(a, b any) bool {
	if comparable(a) && comparable(b) {
		return a == b
	}
	return reflect.DeepEqual(a, b)
}

func sameMap(a, b map[string]any) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || !sameVal(v, w) {
			return false
		}
	}
	return true
}

func copyMap(m map[string]any) map[string]any {
	n := make(map[string]any, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

// merge is what adding data does; it fails for AssertDataIsNotReplaced only.
func merge(old, add map[string]any, mode PreviousDataTreatment) (map[string]any, bool) {
	n := copyMap(old)
	for k, v := range add {
		w, there := old[k]
		switch {
		case !there || mode == ReplacePreviousData:
			n[k] = v
		case mode == AssertDataIsNotReplaced && !(comparable(v) && comparable(w) && v == w):
			return nil, false
		}
	}
	return n, true
}

// Foreign errors.

// custom implements ErrorWithData_any.
type custom struct {
	DummyValidator
	prefix string
	params map[string]any
}

// flaky is a foreign error whose Error method panics at one call.
type flaky struct {
	mu    rt.Mutex
	x     *core.X
	text  string
	n, at int
}

type flakyPanic struct{ f *flaky }

func (f *flaky) Error() string {
	f.mu.Lock()
	f.n++
	hit := f.n == f.at
	f.mu.Unlock()
	rt.YieldNow()
	if hit {
		f.x.Fault("panic in Error() of a wrapped error")
		panic(flakyPanic{f})
	}
	return f.text
}

func customText(p map[string]any) string { return fmt.Sprintf("<A=%v>", p["A"]) }

func (c *custom) Error() string        { return c.prefix + customText(c.params) }
func (c *custom) Is(target error) bool { return error(c) == UnboxError(target) }
func (c *custom) CanMakeIncomparable() {}
func (c *custom) Error_interpolate(p map[string]any) string {
	if p == nil {
		p = c.params
	}
	return c.prefix + customText(p)
}
func (c *custom) GetParameter(n string) (any, bool) { v, ok := c.params[n]; return v, ok }
func (c *custom) HasParameter(n string) bool        { _, ok := c.params[n]; return ok }
func (c *custom) GetData_map() map[string]any       { return copyMap(c.params) }

var _ ErrorWithData_any = (*custom)(nil)
