//go:build go1.22

package rt

import (
	"fmt"
	"io"
	"math/rand"
	rand2 "math/rand/v2"
	"reflect"
	"sort"
	"strings"
	"time"
	"unsafe"
)

// Seams for map iteration, clocks and global randomness in instrumented code.

// MapKeys returns the keys of a map in an order that is a function of the map's content and the seed given to SetPerm only.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	type ent struct {
		k K
		s string
	}
	es := make([]ent, 0, len(m))
	for k := range m {
		es = append(es, ent{k, keyString(reflect.ValueOf(k), 0)})
	}
	sort.Slice(es, func(i, j int) bool { return es[i].s < es[j].s })
	p := permSeed()
	if p != 0 {
		for i := len(es) - 1; i > 0; i-- {
			p = mix(p)
			j := int(p % uint64(i+1))
			es[i], es[j] = es[j], es[i]
		}
	}
	ks := make([]K, len(es))
	for i := range es {
		ks[i] = es[i].k
	}
	return ks
}

// Entry is one entry of a map that is being ranged over.
type Entry[M ~map[K]V, K comparable, V any] struct {
	K K
	m M
}

// Gone reports whether the entry was removed in the meantime.
func (e Entry[M, K, V]) Gone() bool { _, ok := e.m[e.K]; return !ok }

// Val is the current value of the entry.
func (e Entry[M, K, V]) Val() V { return e.m[e.K] }

// MapEntries replaces a map as operand of range in loops that assign to existing variables.
func MapEntries[M ~map[K]V, K comparable, V any](m M) []Entry[M, K, V] {
	ks := MapKeys[M, K, V](m)
	es := make([]Entry[M, K, V], len(ks))
	for i, k := range ks {
		es[i] = Entry[M, K, V]{k, m}
	}
	return es
}

// MapIter replaces a map as operand of range in loops that declare their variables.
type MapIter[M ~map[K]V, K comparable, V any] struct {
	m  M
	ks []K
}

// RangeMap0, RangeMapK, RangeMapV and RangeMapKV start a loop; further results are the initial values of its variables.
func RangeMap0[M ~map[K]V, K comparable, V any](m M) *MapIter[M, K, V] {
	return &MapIter[M, K, V]{m, MapKeys[M, K, V](m)}
}

func RangeMapK[M ~map[K]V, K comparable, V any](m M) (*MapIter[M, K, V], K) {
	var k K
	return RangeMap0[M, K, V](m), k
}

func RangeMapV[M ~map[K]V, K comparable, V any](m M) (*MapIter[M, K, V], V) {
	var v V
	return RangeMap0[M, K, V](m), v
}

func RangeMapKV[M ~map[K]V, K comparable, V any](m M) (*MapIter[M, K, V], K, V) {
	var k K
	var v V
	return RangeMap0[M, K, V](m), k, v
}

// Next0 goes on to the next entry that is still there.
func (it *MapIter[M, K, V]) Next0() bool { return it.NextKV(nil, nil) }

// NextK is Next0 for loops with key variable.
func (it *MapIter[M, K, V]) NextK(k *K) bool { return it.NextKV(k, nil) }

// NextV is Next0 for loops with value variable.
func (it *MapIter[M, K, V]) NextV(v *V) bool { return it.NextKV(nil, v) }

// NextKV is Next0 for loops with both variables.
func (it *MapIter[M, K, V]) NextKV(k *K, v *V) bool {
	for len(it.ks) > 0 {
		x := it.ks[0]
		it.ks = it.ks[1:]
		if y, ok := it.m[x]; ok {
			if k != nil {
				*k = x
			}
			if v != nil {
				*v = y
			}
			return true
		}
	}
	return false
}

//go:norace
func permSeed() uint64 { return perm }

// keyString renders a key without addresses.
func keyString(v reflect.Value, depth int) string {
	switch v.Kind() {
	case reflect.Invalid:
		return "nil"
	case reflect.String:
		return v.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("%020d", uint64(v.Int())+1<<63)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprintf("%020d", v.Uint())
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.Float32, reflect.Float64:
		return fmt.Sprintf("%g", v.Float())
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() || depth > 3 {
			return "nil"
		}
		if v.Kind() == reflect.Interface {
			return v.Elem().Type().String() + keyString(v.Elem(), depth+1)
		}
		if depth > 0 {
			return v.Type().String()
		}
		return keyString(v.Elem(), depth+1)
	case reflect.Struct:
		var b strings.Builder
		for i := 0; i < v.NumField(); i++ {
			switch v.Field(i).Kind() {
			case reflect.String, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Bool, reflect.Array, reflect.Struct:
				b.WriteString(keyString(v.Field(i), depth+1))
				b.WriteByte('|')
			}
		}
		return b.String()
	case reflect.Array:
		var b strings.Builder
		for i := 0; i < v.Len(); i++ {
			b.WriteString(keyString(v.Index(i), depth+1))
			b.WriteByte(',')
		}
		return b.String()
	default:
		return v.Type().String()
	}
}

type gsource struct{}

func (gsource) Int63() int64    { return int64(GlobalRand64() >> 1) }
func (gsource) Uint64() uint64  { return GlobalRand64() }
func (gsource) Seed(seed int64) {}

var gr = rand.New(gsource{})

// GRand is used instead of the global functions of math/rand: rand.X(...) becomes GRand().X(...).
func GRand() *rand.Rand { return gr }

var gr2 = rand2.New(gsource{})

// GRand2 is used instead of the global functions of math/rand/v2.
func GRand2() *rand2.Rand { return gr2 }

type cryptoReader struct{}

func (cryptoReader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(GlobalRand64())
	}
	return len(p), nil
}

// CryptoReader replaces crypto/rand.Reader.
var CryptoReader io.Reader = cryptoReader{}

// CryptoRead replaces crypto/rand.Read.
func CryptoRead(p []byte) (int, error) { return CryptoReader.Read(p) }

var epoch = time.Date(2030, 1, 1, 0, 0, 0, 0, time.UTC)

// TimeNow replaces time.Now.
func TimeNow() time.Time { return epoch.Add(time.Duration(Now())) }

// TimeSleep replaces time.Sleep.
func TimeSleep(d time.Duration) { Sleep(int64(d)) }

// TimeSince replaces time.Since.
func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }

// TimeUntil replaces time.Until.
func TimeUntil(t time.Time) time.Duration { return t.Sub(TimeNow()) }

// Globals: package-level variables of the code under test, registered by generated init functions.

type global struct {
	name string
	v    reflect.Value // addressable
	save reflect.Value
	keys []reflect.Value
	vals []reflect.Value
}

var globals []*global

// RegisterGlobal is called by generated code.
func RegisterGlobal(name string, ptr any) {
	globals = append(globals, &global{name: name, v: reflect.ValueOf(ptr).Elem()})
}

// A piece of memory reachable from package-level variables, with its recorded content.
type memory struct {
	at   reflect.Value // addressable, settable
	save reflect.Value
}

type savedMap struct {
	m          reflect.Value
	keys, vals []reflect.Value
}

type savedChan struct {
	c    reflect.Value
	vals []reflect.Value
}

// restore goes back to the recorded content. A channel that was closed in the meantime is replaced.
func (s *savedChan) restore() {
	for {
		x, ok := s.c.TryRecv()
		if !ok {
			if x.IsValid() && s.c.CanSet() {
				s.c.Set(reflect.MakeChan(s.c.Type(), s.c.Cap()))
			}
			break
		}
	}
	for _, x := range s.vals {
		s.c.TrySend(x)
	}
}

var savedChans []savedChan
var memories []memory
var savedMaps []savedMap

const ownModule = "github.com/GottfriedHerold/Bandersnatch"

// SnapshotGlobals records the state of all package-level variables of the code under test and of everything that is reachable
// from them through pointers, slices, interfaces and maps (as far as the types belong to the code under test or are predeclared).
func SnapshotGlobals() {
	w := walker{seen: map[seenKey]bool{}}
	for _, g := range globals {
		g.save = reflect.New(g.v.Type()).Elem()
		g.save.Set(g.v)
		if g.v.Kind() == reflect.Map {
			it := g.v.MapRange()
			for it.Next() {
				g.keys = append(g.keys, it.Key())
				g.vals = append(g.vals, it.Value())
				w.walk(it.Key(), 0)
				w.walk(it.Value(), 0)
			}
			continue
		}
		w.walk(g.v, 0)
	}
}

type seenKey struct {
	p unsafe.Pointer
	t reflect.Type
}

type walker struct {
	seen map[seenKey]bool
	size uintptr
}

func followed(t reflect.Type) bool {
	pkg := t.PkgPath()
	return pkg == "" || pkg == "math/big" || (strings.HasPrefix(pkg, ownModule) && !strings.Contains(pkg, "/verifsim/"))
}

func pointerFree(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32,
		reflect.Uint64, reflect.Uintptr, reflect.Float32, reflect.Float64, reflect.Complex64, reflect.Complex128, reflect.String, reflect.Func, reflect.UnsafePointer:
		return true
	case reflect.Array:
		return t.Len() == 0 || pointerFree(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if !pointerFree(t.Field(i).Type) {
				return false
			}
		}
		return true
	}
	return false
}

// keep records the content of the object of type t at p.
func (w *walker) keep(p unsafe.Pointer, t reflect.Type, depth int) {
	if p == nil || t.Size() == 0 || w.seen[seenKey{p, t}] || w.size+t.Size() > 8<<20 {
		return
	}
	w.seen[seenKey{p, t}] = true
	w.size += t.Size()
	at := reflect.NewAt(t, p).Elem()
	save := reflect.New(t).Elem()
	save.Set(at)
	memories = append(memories, memory{at, save})
	w.walk(at, depth+1)
}

func (w *walker) walk(v reflect.Value, depth int) {
	if depth > 200 || pointerFree(v.Type()) {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() && followed(v.Type().Elem()) {
			w.keep(v.UnsafePointer(), v.Type().Elem(), depth)
		}
	case reflect.Interface:
		if !v.IsNil() && followed(v.Elem().Type()) {
			w.walk(v.Elem(), depth+1)
		}
	case reflect.Slice:
		if v.Cap() > 0 && followed(v.Type().Elem()) {
			w.keep(v.UnsafePointer(), reflect.ArrayOf(v.Cap(), v.Type().Elem()), depth)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			w.walk(v.Index(i), depth+1)
		}
	case reflect.Struct:
		if !followed(v.Type()) && v.Type().PkgPath() != "" && !strings.Contains(v.Type().PkgPath(), "/verifsim/") {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			w.walk(v.Field(i), depth+1)
		}
	case reflect.Chan:
		if v.IsNil() || v.Type().ChanDir() != reflect.BothDir || w.seen[seenKey{v.UnsafePointer(), nil}] {
			return
		}
		w.seen[seenKey{v.UnsafePointer(), nil}] = true
		s := savedChan{c: settable(v)}
		if !s.c.IsValid() {
			return
		}
		for s.c.Len() > 0 {
			x, _ := s.c.TryRecv()
			s.vals = append(s.vals, x)
		}
		if x, _ := s.c.TryRecv(); x.IsValid() { // closed already
			return
		}
		for _, x := range s.vals {
			s.c.TrySend(x)
			w.walk(x, depth+1)
		}
		savedChans = append(savedChans, s)
	case reflect.Map:
		if v.IsNil() || w.seen[seenKey{v.UnsafePointer(), nil}] {
			return
		}
		w.seen[seenKey{v.UnsafePointer(), nil}] = true
		s := savedMap{m: settable(v)}
		if !s.m.IsValid() {
			return
		}
		it := s.m.MapRange()
		for it.Next() {
			s.keys = append(s.keys, it.Key())
			s.vals = append(s.vals, it.Value())
			w.walk(it.Key(), depth+1)
			w.walk(it.Value(), depth+1)
		}
		savedMaps = append(savedMaps, s)
	}
}

// settable removes the restrictions on values from unexported fields. It makes a map value, which refers to the same map.
func settable(v reflect.Value) reflect.Value {
	if v.CanInterface() {
		return v
	}
	if !v.CanAddr() {
		return reflect.Value{}
	}
	return reflect.NewAt(v.Type(), v.Addr().UnsafePointer()).Elem()
}

// RestoreGlobals goes back to the recorded state: every simulated run starts from a freshly initialised library.
func RestoreGlobals() {
	for _, g := range globals {
		g.v.Set(g.save)
		if g.v.Kind() == reflect.Map && !g.v.IsNil() && (len(g.keys) <= 64 || g.v.Len() != len(g.keys)) {
			m := reflect.MakeMap(g.v.Type())
			for i := range g.keys {
				m.SetMapIndex(g.keys[i], g.vals[i])
			}
			g.v.Set(m)
		}
	}
	for i := range memories {
		memories[i].at.Set(memories[i].save)
	}
	for i := range savedChans {
		savedChans[i].restore()
	}
	for i := range savedMaps {
		s := &savedMaps[i]
		if len(s.keys) > 64 && s.m.Len() == len(s.keys) {
			continue
		}
		s.m.Clear()
		for j := range s.keys {
			s.m.SetMapIndex(s.keys[j], s.vals[j])
		}
	}
}

// Restored describes how much is restored before each run.
func Restored() (vars, objects, maps int) { return len(globals), len(memories), len(savedMaps) }
