package main

import (
	"bytes"
	"crypto/sha256"
	"reflect"
	"strings"
	"unsafe"

	badger "github.com/dgraph-io/badger/v3"
)

var badgerType = reflect.TypeOf((*badger.DB)(nil))

// findDBs walks the object graph of the runtime packages and returns every database in it,
// in a fixed order. It knows nothing about field names.
func findDBs(root interface{}) []*badger.DB {
	var out []*badger.DB
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value, depth int)
	walk = func(v reflect.Value, depth int) {
		if depth > 40 {
			return
		}
		switch v.Kind() {
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem(), depth+1)
			}
		case reflect.Ptr:
			if v.IsNil() {
				return
			}
			if seen[v.Pointer()] {
				return
			}
			if v.Type() == badgerType {
				seen[v.Pointer()] = true
				out = append(out, (*badger.DB)(unsafe.Pointer(v.Pointer())))
				return
			}
			seen[v.Pointer()] = true
			walk(v.Elem(), depth+1)
		case reflect.Struct:
			if !strings.HasPrefix(v.Type().PkgPath(), "github.com/fdymylja/tmos/runtime") {
				return
			}
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i), depth+1)
			}
		case reflect.Slice, reflect.Array:
			if k := v.Type().Elem().Kind(); k == reflect.Uint8 || k == reflect.String {
				return
			}
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), depth+1)
			}
		}
	}
	walk(reflect.ValueOf(root), 0)
	return out
}

func closeDBs(root interface{}) {
	for _, db := range findDBs(root) {
		_ = db.Close()
	}
}

// Dump is the full content of all databases of a system: per database, key -> value.
type Dump []map[string]string

func dump(dbs []*badger.DB) Dump {
	d := make(Dump, len(dbs))
	for i, db := range dbs {
		m := map[string]string{}
		must(db.View(func(txn *badger.Txn) error {
			o := badger.DefaultIteratorOptions
			it := txn.NewIterator(o)
			defer it.Close()
			for it.Rewind(); it.Valid(); it.Next() {
				item := it.Item()
				if err := item.Value(func(v []byte) error { m[string(item.Key())] = string(v); return nil }); err != nil {
					return err
				}
			}
			return nil
		}))
		d[i] = m
	}
	return d
}

func (d Dump) equal(e Dump) bool {
	if len(d) != len(e) {
		return false
	}
	for i := range d {
		if len(d[i]) != len(e[i]) {
			return false
		}
		for k, v := range d[i] {
			if w, ok := e[i][k]; !ok || w != v {
				return false
			}
		}
	}
	return true
}

// diff lists the keys that differ.
func (d Dump) diff(e Dump) string {
	var b bytes.Buffer
	n := 0
	for i := range d {
		for _, k := range sortedKeys(d[i]) {
			w, ok := e[i][k]
			if !ok {
				b.WriteString("\n   - " + q(k) + " = " + q(d[i][k]))
				n++
			} else if w != d[i][k] {
				b.WriteString("\n   ~ " + q(k) + ": " + q(d[i][k]) + " -> " + q(w))
				n++
			}
		}
		for _, k := range sortedKeys(e[i]) {
			if _, ok := d[i][k]; !ok {
				b.WriteString("\n   + " + q(k) + " = " + q(e[i][k]))
				n++
			}
		}
	}
	return trunc(b.String(), 2000)
}

func q(s string) string {
	if len(s) > 120 {
		s = s[:120] + "…"
	}
	return strings.ToValidUTF8(strings.Map(func(r rune) rune {
		if r < 32 {
			return '·'
		}
		return r
	}, s), "?")
}

func (d Dump) digest() string {
	h := sha256.New()
	for _, m := range d {
		for _, k := range sortedKeys(m) {
			h.Write([]byte{byte(len(k) >> 8), byte(len(k))})
			h.Write([]byte(k))
			l := len(m[k])
			h.Write([]byte{byte(l >> 24), byte(l >> 16), byte(l >> 8), byte(l)})
			h.Write([]byte(m[k]))
		}
		h.Write([]byte{0xff})
	}
	return string(h.Sum(nil)[:16])
}

// restore makes the databases hold exactly d.
func restore(dbs []*badger.DB, d Dump) {
	cur := dump(dbs)
	for i, db := range dbs {
		txn := db.NewTransaction(true)
		for k := range cur[i] {
			if _, ok := d[i][k]; !ok {
				must(txn.Delete([]byte(k)))
			}
		}
		for k, v := range d[i] {
			if w, ok := cur[i][k]; !ok || w != v {
				must(txn.Set([]byte(k), []byte(v)))
			}
		}
		must(txn.Commit())
	}
}
