package gencheck

import (
	"sort"
	"strings"

	"github.com/fdymylja/tmos/runtime/kv"
)

// memKV is a plain in-memory KV.
type memKV struct{ m map[string][]byte }

func newMemKV() *memKV { return &memKV{map[string][]byte{}} }
func (k *memKV) Get(key []byte) ([]byte, bool) {
	v, ok := k.m[string(key)]
	return append([]byte{}, v...), ok
}
func (k *memKV) Set(key, v []byte)   { k.m[string(key)] = append([]byte{}, v...) }
func (k *memKV) Has(key []byte) bool { _, ok := k.m[string(key)]; return ok }
func (k *memKV) Delete(key []byte) bool {
	_, ok := k.m[string(key)]
	delete(k.m, string(key))
	return ok
}
func (k *memKV) iter(lo, hi, pre string) kv.Iterator {
	it := &memIter{cut: len(pre)}
	for x := range k.m {
		if strings.HasPrefix(x, pre) && x >= lo && (hi == "" || x <= hi) {
			it.kv = append(it.kv, [2]string{x, string(k.m[x])})
		}
	}
	sort.Slice(it.kv, func(i, j int) bool { return it.kv[i][0] < it.kv[j][0] })
	return it
}
func (k *memKV) Iterate(start, end []byte) kv.Iterator { return k.iter(string(start), string(end), "") }
func (k *memKV) IteratePrefix(p []byte) kv.Iterator    { return k.iter("", "", string(p)) }

type memIter struct {
	kv  [][2]string
	i   int
	cut int
}

func (m *memIter) Next()         { m.i++ }
func (m *memIter) Key() []byte   { return []byte(m.kv[m.i][0])[m.cut:] }
func (m *memIter) Value() []byte { return []byte(m.kv[m.i][1]) }
func (m *memIter) Valid() bool   { return m.i < len(m.kv) }
func (m *memIter) Close()        {}
