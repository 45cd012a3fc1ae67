package stubs

import (
	"sync"
	"sync/atomic"

	"dukptverif/sym"
)

// smap is the state behind a sync.Map: a map under a lock.
type smap struct {
	mu sync.RWMutex
	m  map[any]any
}

func smapOf(p *sync.Map) *smap {
	if c := sym.Cell(p); c != nil {
		return c.(*smap)
	}
	h := &smap{m: map[any]any{}}
	sym.SetCell(p, h)
	return h
}

//sym:replace (*sync.Map).Load
func MapLoad(p *sync.Map, k any) (any, bool) {
	h := smapOf(p)
	h.mu.RLock()
	v, ok := h.m[k]
	h.mu.RUnlock()
	return v, ok
}

//sym:replace (*sync.Map).Store
func MapStore(p *sync.Map, k, v any) {
	h := smapOf(p)
	h.mu.Lock()
	h.m[k] = v
	h.mu.Unlock()
}

//sym:replace (*sync.Map).Clear
func MapClear(p *sync.Map) {
	h := smapOf(p)
	h.mu.Lock()
	h.m = map[any]any{}
	h.mu.Unlock()
}

//sym:replace (*sync.Map).LoadOrStore
func MapLoadOrStore(p *sync.Map, k, v any) (any, bool) {
	h := smapOf(p)
	h.mu.Lock()
	old, ok := h.m[k]
	if !ok {
		h.m[k] = v
		old = v
	}
	h.mu.Unlock()
	return old, ok
}

//sym:replace (*sync.Map).LoadAndDelete
func MapLoadAndDelete(p *sync.Map, k any) (any, bool) {
	h := smapOf(p)
	h.mu.Lock()
	old, ok := h.m[k]
	delete(h.m, k)
	h.mu.Unlock()
	return old, ok
}

//sym:replace (*sync.Map).Delete
func MapDelete(p *sync.Map, k any) { MapLoadAndDelete(p, k) }

//sym:replace (*sync.Map).Swap
func MapSwap(p *sync.Map, k, v any) (any, bool) {
	h := smapOf(p)
	h.mu.Lock()
	old, ok := h.m[k]
	h.m[k] = v
	h.mu.Unlock()
	return old, ok
}

//sym:replace (*sync.Map).CompareAndSwap
func MapCompareAndSwap(p *sync.Map, k, old, v any) bool {
	h := smapOf(p)
	h.mu.Lock()
	cur, ok := h.m[k]
	if ok = ok && cur == old; ok {
		h.m[k] = v
	}
	h.mu.Unlock()
	return ok
}

//sym:replace (*sync.Map).CompareAndDelete
func MapCompareAndDelete(p *sync.Map, k, old any) bool {
	h := smapOf(p)
	h.mu.Lock()
	cur, ok := h.m[k]
	if ok = ok && cur == old; ok {
		delete(h.m, k)
	}
	h.mu.Unlock()
	return ok
}

//sym:replace (*sync.Map).Range
func MapRange(p *sync.Map, f func(k, v any) bool) {
	h := smapOf(p)
	h.mu.RLock()
	var keys []any
	for k := range h.m {
		keys = append(keys, k)
	}
	h.mu.RUnlock()
	for _, k := range keys {
		if v, ok := MapLoad(p, k); ok && !f(k, v) {
			return
		}
	}
}

// aval is the state behind an atomic.Value.
type aval struct {
	mu sync.RWMutex
	v  any
}

func avalOf(p *atomic.Value) *aval {
	if c := sym.Cell(p); c != nil {
		return c.(*aval)
	}
	h := &aval{}
	sym.SetCell(p, h)
	return h
}

//sym:replace (*sync/atomic.Value).Load
func ValueLoad(p *atomic.Value) any {
	h := avalOf(p)
	h.mu.RLock()
	v := h.v
	h.mu.RUnlock()
	return v
}

//sym:replace (*sync/atomic.Value).Store
func ValueStore(p *atomic.Value, v any) { ValueSwap(p, v) }

//sym:replace (*sync/atomic.Value).Swap
func ValueSwap(p *atomic.Value, v any) any {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	h := avalOf(p)
	h.mu.Lock()
	old := h.v
	h.v = v
	h.mu.Unlock()
	return old
}

//sym:replace (*sync/atomic.Value).CompareAndSwap
func ValueCompareAndSwap(p *atomic.Value, old, v any) bool {
	h := avalOf(p)
	h.mu.Lock()
	ok := h.v == old
	if ok {
		h.v = v
	}
	h.mu.Unlock()
	return ok
}
