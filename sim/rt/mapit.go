//go:build go1.21

package rt

import (
	"fmt"
	"reflect"
	"sort"
	"unsafe"
)

// Ider gives simulator objects a stable identity for ordering.
type Ider interface{ SimID() int64 }

// MapIt iterates a map in an order chosen by the seed.
type MapIt[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

func keyLess(a, b interface{}) bool {
	if x, ok := a.(Ider); ok {
		if y, ok := b.(Ider); ok {
			return x.SimID() < y.SimID()
		}
	}
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	if x.IsValid() && y.IsValid() && x.Kind() == y.Kind() {
		switch x.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			return x.Int() < y.Int()
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			return x.Uint() < y.Uint()
		case reflect.String:
			return x.String() < y.String()
		case reflect.Float32, reflect.Float64:
			return x.Float() < y.Float()
		case reflect.Ptr, reflect.Chan, reflect.UnsafePointer:
			return false
		}
	}
	return fmt.Sprint(a) < fmt.Sprint(b)
}

func newMapIt[M ~map[K]V, K comparable, V any](m M) *MapIt[K, V] {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) > 1 {
		sort.SliceStable(keys, func(i, j int) bool { return keyLess(keys[i], keys[j]) })
		if S != nil && S.rmap != nil && cur != nil {
			for i := len(keys) - 1; i > 0; i-- {
				j := S.rmap.N(i + 1)
				keys[i], keys[j] = keys[j], keys[i]
			}
		}
	}
	return &MapIt[K, V]{m: m, keys: keys}
}

func RangeMap[M ~map[K]V, K comparable, V any](m M) (*MapIt[K, V], K, V) {
	var k K
	var v V
	return newMapIt[M, K, V](m), k, v
}

func RangeMap0[M ~map[K]V, K comparable, V any](m M) *MapIt[K, V] { return newMapIt[M, K, V](m) }

func (it *MapIt[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++
		if val, ok := it.m[key]; ok {
			if k != nil {
				*k = key
			}
			if v != nil {
				*v = val
			}
			return true
		}
	}
	return false
}

func (it *MapIt[K, V]) Next0() bool { return it.Next(nil, nil) }

// MapW marks m as being written: another task that touches it inside the window
// gets the runtime's "concurrent map" fatal error, as it would in production.
func MapW[M ~map[K]V, K comparable, V any](m M) M {
	if cur == nil || m == nil || cur.killed {
		return m
	}
	p := *(*uintptr)(unsafe.Pointer(&m))
	if o := S.mapW[p]; o != nil && o != cur && !o.killed {
		panic(Fatal{"concurrent map writes"})
	}
	S.mapW[p] = cur
	Y()
	delete(S.mapW, p)
	return m
}

// MapR checks a read of m against a concurrent write.
func MapR[M ~map[K]V, K comparable, V any](m M) M {
	if cur == nil || m == nil || len(S.mapW) == 0 {
		return m
	}
	p := *(*uintptr)(unsafe.Pointer(&m))
	if o := S.mapW[p]; o != nil && o != cur && !o.killed {
		panic(Fatal{"concurrent map read and map write"})
	}
	return m
}

// Zero clears *p.
func Zero[V any](p *V) { var z V; *p = z }
