//go:build go1.21

package sync

import (
	"msim/rt"
)

type (
	Mutex     = rt.Mutex
	RWMutex   = rt.RWMutex
	WaitGroup = rt.WaitGroup
	Once      = rt.Once
	Cond      = rt.Cond
	Locker    = rt.Locker
)

func NewCond(l Locker) *Cond { return &rt.Cond{L: l} }

type Pool struct {
	New   func() interface{}
	items []interface{}
}

func (p *Pool) Get() interface{} {
	rt.Y()
	if n := len(p.items); n > 0 {
		v := p.items[n-1]
		p.items = p.items[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(v interface{}) {
	rt.Y()
	if v != nil {
		p.items = append(p.items, v)
	}
}

type Map struct {
	m    map[interface{}]interface{}
	keys []interface{}
}

func (m *Map) Load(k interface{}) (interface{}, bool) { rt.Y(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v interface{}) {
	rt.Y()
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	rt.Y()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	m.keys = append(m.keys, k)
	m.m[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	rt.Y()
	v, ok := m.m[k]
	if ok {
		delete(m.m, k)
		for i, x := range m.keys {
			if x == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
	return v, ok
}
func (m *Map) Delete(k interface{}) { m.LoadAndDelete(k) }
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	o, ok := m.Load(k)
	m.Store(k, v)
	return o, ok
}
func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	rt.Y()
	if v, ok := m.m[k]; ok && v == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) Clear() { rt.Y(); m.m = nil; m.keys = nil }
func (m *Map) Range(f func(k, v interface{}) bool) {
	for _, k := range append([]interface{}{}, m.keys...) {
		rt.Y()
		if v, ok := m.m[k]; ok {
			if !f(k, v) {
				return
			}
		}
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}
