package main

// A copy-on-write implementation of the SDK's MultiStore: every state of an exploration owns one
// Store; branching a state is O(number of touched stores). Semantics (ordering, iterator snapshots,
// cache/write) are those of the SDK's cachekv-over-iavl stack.

import (
	"crypto/sha256"
	"encoding/binary"
	"io"
	"sort"
	"sync"

	storetypes "cosmossdk.io/store/types"
	"github.com/tidwall/btree"
)

type tree = btree.Map[string, []byte]

type MStore struct {
	mu     sync.Mutex
	trees  map[string]*tree
	owned  map[string]bool // trees this store may mutate in place
	parent *MStore         // for Write()
}

func NewMStore() *MStore {
	return &MStore{trees: map[string]*tree{}, owned: map[string]bool{}}
}

// Branch returns an independent copy. The receiver must not be mutated while being branched by
// others; after branching, both sides copy a tree before the first write to it.
func (m *MStore) Branch() *MStore {
	m.mu.Lock()
	defer m.mu.Unlock()
	n := &MStore{trees: make(map[string]*tree, len(m.trees)), owned: map[string]bool{}}
	for k, t := range m.trees {
		n.trees[k] = t
	}
	m.owned = map[string]bool{} // the receiver shares its trees from now on
	return n
}

func (m *MStore) rtree(name string) *tree {
	if t, ok := m.trees[name]; ok {
		return t
	}
	return nil
}

func (m *MStore) wtree(name string) *tree {
	t := m.trees[name]
	if t == nil {
		t = new(tree)
		m.trees[name] = t
		m.owned[name] = true
		return t
	}
	if !m.owned[name] {
		copyMu.Lock()
		t = t.Copy()
		copyMu.Unlock()
		m.trees[name] = t
		m.owned[name] = true
	}
	return t
}

// btree.Map.Copy bumps the isolation id of the shared source; guard it.
var copyMu sync.Mutex

func (m *MStore) GetStoreType() storetypes.StoreType { return storetypes.StoreTypeMulti }
func (m *MStore) CacheWrap() storetypes.CacheWrap    { return m.CacheMultiStore().(storetypes.CacheWrap) }
func (m *MStore) CacheWrapWithTrace(io.Writer, storetypes.TraceContext) storetypes.CacheWrap {
	return m.CacheWrap()
}

func (m *MStore) CacheMultiStore() storetypes.CacheMultiStore {
	n := m.Branch()
	n.parent = m
	return n
}

func (m *MStore) Write() {
	if m.parent == nil {
		return
	}
	p := m.parent
	p.mu.Lock()
	defer p.mu.Unlock()
	m.mu.Lock()
	defer m.mu.Unlock()
	for k, t := range m.trees {
		if p.trees[k] != t {
			p.trees[k] = t
		}
	}
	p.owned = map[string]bool{}
	m.owned = map[string]bool{}
}

func (m *MStore) CacheMultiStoreWithVersion(int64) (storetypes.CacheMultiStore, error) {
	return m.CacheMultiStore(), nil
}
func (m *MStore) GetStore(k storetypes.StoreKey) storetypes.Store { return m.GetKVStore(k) }
func (m *MStore) GetKVStore(k storetypes.StoreKey) storetypes.KVStore {
	typ := storetypes.StoreTypeIAVL
	switch k.(type) {
	case *storetypes.MemoryStoreKey:
		typ = storetypes.StoreTypeMemory
	case *storetypes.TransientStoreKey:
		typ = storetypes.StoreTypeTransient
	}
	return &kv{m, k.Name(), typ}
}
func (m *MStore) TracingEnabled() bool                      { return false }
func (m *MStore) SetTracer(io.Writer) storetypes.MultiStore { return m }
func (m *MStore) SetTracingContext(storetypes.TraceContext) storetypes.MultiStore {
	return m
}
func (m *MStore) LatestVersion() int64 { return 0 }

// Clear drops a whole store.
func (m *MStore) Clear(name string) {
	m.trees[name] = new(tree)
	m.owned[name] = true
}

// Names lists the non-empty stores in order.
func (m *MStore) Names() []string {
	var out []string
	for k, t := range m.trees {
		if t.Len() > 0 {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

type hash16 [16]byte

// Hash digests the content of the given stores.
func (m *MStore) Hash(names []string, extra []byte) hash16 {
	h := sha256.New()
	var l [8]byte
	w := func(b []byte) {
		binary.LittleEndian.PutUint64(l[:], uint64(len(b)))
		h.Write(l[:])
		h.Write(b)
	}
	for _, n := range names {
		h.Write([]byte(n))
		if t := m.rtree(n); t != nil {
			t.Scan(func(k string, v []byte) bool {
				w([]byte(k))
				w(v)
				return true
			})
		}
		h.Write([]byte{0xff})
	}
	w(extra)
	var out hash16
	copy(out[:], h.Sum(nil))
	return out
}

type KVPair struct {
	K string
	V []byte
}

// Dump lists the content of one store.
func (m *MStore) Dump(name string) []KVPair {
	var out []KVPair
	if t := m.rtree(name); t != nil {
		t.Scan(func(k string, v []byte) bool {
			out = append(out, KVPair{k, v})
			return true
		})
	}
	return out
}

type kv struct {
	m    *MStore
	name string
	typ  storetypes.StoreType
}

func (s *kv) GetStoreType() storetypes.StoreType { return s.typ }
func (s *kv) CacheWrap() storetypes.CacheWrap    { panic("CacheWrap on a single store") }
func (s *kv) CacheWrapWithTrace(io.Writer, storetypes.TraceContext) storetypes.CacheWrap {
	panic("CacheWrap on a single store")
}

func (s *kv) Get(key []byte) []byte {
	storetypes.AssertValidKey(key)
	if t := s.m.rtree(s.name); t != nil {
		if v, ok := t.Get(string(key)); ok {
			return append([]byte{}, v...)
		}
	}
	return nil
}

func (s *kv) Has(key []byte) bool {
	storetypes.AssertValidKey(key)
	if t := s.m.rtree(s.name); t != nil {
		_, ok := t.Get(string(key))
		return ok
	}
	return false
}

func (s *kv) Set(key, value []byte) {
	storetypes.AssertValidKey(key)
	storetypes.AssertValidValue(value)
	s.m.wtree(s.name).Set(string(key), append([]byte{}, value...))
}

func (s *kv) Delete(key []byte) {
	storetypes.AssertValidKey(key)
	t := s.m.rtree(s.name)
	if t == nil {
		return
	}
	if _, ok := t.Get(string(key)); !ok {
		return
	}
	s.m.wtree(s.name).Delete(string(key))
}

type sliceIter struct {
	start, end []byte
	items      []KVPair
	i          int
}

func (it *sliceIter) Domain() ([]byte, []byte) { return it.start, it.end }
func (it *sliceIter) Valid() bool              { return it.i < len(it.items) }
func (it *sliceIter) Next() {
	if !it.Valid() {
		panic("iterator is invalid")
	}
	it.i++
}
func (it *sliceIter) Key() []byte {
	if !it.Valid() {
		panic("iterator is invalid")
	}
	return []byte(it.items[it.i].K)
}
func (it *sliceIter) Value() []byte {
	if !it.Valid() {
		panic("iterator is invalid")
	}
	return append([]byte{}, it.items[it.i].V...)
}
func (it *sliceIter) Error() error { return nil }
func (it *sliceIter) Close() error { return nil }

// chunked lazily walks a frozen snapshot
func (s *kv) iter(start, end []byte, rev bool) storetypes.Iterator {
	it := &sliceIter{start: start, end: end}
	t := s.m.rtree(s.name)
	if t == nil {
		return it
	}
	if !rev {
		t.Ascend(string(start), func(k string, v []byte) bool {
			if end != nil && k >= string(end) {
				return false
			}
			it.items = append(it.items, KVPair{k, v})
			return true
		})
		return it
	}
	fn := func(k string, v []byte) bool {
		if end != nil && k >= string(end) {
			return true
		}
		if start != nil && k < string(start) {
			return false
		}
		it.items = append(it.items, KVPair{k, v})
		return true
	}
	if end == nil {
		t.Reverse(fn)
	} else {
		t.Descend(string(end), fn)
	}
	return it
}

func (s *kv) Iterator(start, end []byte) storetypes.Iterator        { return s.iter(start, end, false) }
func (s *kv) ReverseIterator(start, end []byte) storetypes.Iterator { return s.iter(start, end, true) }
