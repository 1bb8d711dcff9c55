package main

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"math"
	"strconv"

	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/core/schema"
	"github.com/fdymylja/tmos/pkg/protoutils/kindencoder"
	ormschema "github.com/fdymylja/tmos/runtime/orm/schema"
	"google.golang.org/protobuf/reflect/protoreflect"
)

func init() { register("C03", c03) }

var protoKinds = map[string]protoreflect.Kind{
	"bool": protoreflect.BoolKind, "int32": protoreflect.Int32Kind, "uint32": protoreflect.Uint32Kind,
	"int64": protoreflect.Int64Kind, "uint64": protoreflect.Uint64Kind, "string": protoreflect.StringKind, "bytes": protoreflect.BytesKind,
}

func c03(c *Ctx) {
	c.Level = "exploration"
	c.Rule = "every boundary value, every 17-bit value and every single- and double-bit pattern of each kind: the encodings of the text, Go value and object forms are equal and no two distinct values share one; every malformed text and every wrong Go type is refused"

	type enc struct {
		k   kindencoder.KindEncoder
		sch *ormschema.Schema
		idx *ormschema.Indexer
		t   *dynType
	}
	mk := func(kind string) enc {
		t := stTypes().byKind[kind]
		k, err := kindencoder.NewKindEncoder(protoKinds[kind])
		must(err)
		sch, err := ormschema.NewSchema(t.obj(), &schema.Definition{PrimaryKey: "theId", SecondaryKeys: []string{"theId"}})
		must(err)
		idx, err := sch.Indexer("theId")
		must(err)
		return enc{k, sch, idx, t}
	}
	// forms checks that all input forms of v agree and returns the encoding.
	forms := func(e enc, v interface{}) ([]byte, *Fail) {
		text := keyText(v)
		val, err := e.k.EncodeInterface(v)
		if err != nil {
			return nil, failf("refused-value", "%T %v refused: %v", v, trunc(text, 60), err)
		}
		want := protoreflect.ValueOf(v)
		if fmt.Sprint(val.Interface()) != fmt.Sprint(want.Interface()) {
			return nil, failf("wrong-value", "EncodeInterface(%T %v) holds %v", v, trunc(text, 60), val.Interface())
		}
		base := append([]byte{}, e.k.EncodeValueToBytes(val)...)
		tv, err := e.k.EncodeString(text)
		if err != nil {
			return nil, failf("refused-text", "text %q refused: %v", trunc(text, 60), err)
		}
		if b := e.k.EncodeValueToBytes(tv); !bytes.Equal(b, base) {
			return nil, failf("forms-differ", "%T: text %q encodes to %x, value to %x", v, trunc(text, 60), trunc(string(b), 40), trunc(string(base), 40))
		}
		o := e.t.obj().set("the_id", v)
		outs := map[string][]byte{"object primary key": e.sch.EncodePrimaryKey(o), "object secondary key": e.idx.MustEncodeFromObject(o)}
		if b, err := e.sch.EncodePrimaryKeyString(text); err != nil {
			return nil, failf("refused-text", "primary key text %q refused: %v", trunc(text, 60), err)
		} else {
			outs["primary key text"] = b
		}
		if b, err := e.idx.EncodeString(text); err != nil {
			return nil, failf("refused-text", "secondary key text %q refused: %v", trunc(text, 60), err)
		} else {
			outs["secondary key text"] = b
		}
		if b, err := e.idx.EncodeInterface(v); err != nil {
			return nil, failf("refused-value", "secondary key value %v refused: %v", trunc(text, 60), err)
		} else {
			outs["secondary key value"] = b
		}
		switch k := v.(type) { // what callers use to address an object by id
		case string:
			outs["string id"] = meta.NewStringID(k).Bytes()
		case []byte:
			outs["bytes id"] = meta.NewBytesID(k).Bytes()
		}
		for n, b := range outs {
			if !bytes.Equal(b, base) {
				return nil, failf("forms-differ", "%T %s: %s encodes to %x, value to %x", v, trunc(text, 60), n, trunc(string(b), 40), trunc(string(base), 40))
			}
		}
		return base, nil
	}

	type kindCase struct {
		Kind string `json:"kind"`
	}
	Explore(c, "values", func(emit func(kindCase) bool) {
		for _, k := range kindNames {
			emit(kindCase{k})
		}
	}, func(w *Worker, kc kindCase) *Fail {
		e := mk(kc.Kind)
		seen := map[string]string{}
		one := func(v interface{}) *Fail {
			b, f := forms(e, v)
			if f != nil {
				return f
			}
			t := keyText(v)
			if o, ok := seen[string(b)]; ok && o != t {
				return failf("not-injective", "%s %s and %s share the encoding %x", kc.Kind, trunc(o, 60), trunc(t, 60), trunc(string(b), 40))
			}
			seen[string(b)] = t
			return nil
		}
		var all []interface{}
		switch kc.Kind {
		case "bool":
			all = []interface{}{true, false}
		case "string":
			all = append(all, "")
			for _, s := range edgeStrings(true) {
				all = append(all, s)
			}
			for i := 0; i < 256; i++ {
				for j := 0; j < 128; j++ {
					all = append(all, string(rune(i))+string(rune(j)))
				}
			}
		case "bytes":
			all = append(all, []byte{})
			for _, s := range edgeBytes(true) {
				all = append(all, s)
			}
			for i := 0; i < 65536; i++ {
				all = append(all, []byte{byte(i >> 8), byte(i)})
			}
		default:
			for _, s := range edgeInts(kc.Kind) {
				all = append(all, parseKey(kc.Kind, s))
			}
			bits := 17
			if c.Thorough {
				bits = 20
			}
			for i := uint64(0); i < 1<<uint(bits); i++ {
				all = append(all, castKind(kc.Kind, i), castKind(kc.Kind, -i))
			}
			for a := uint(0); a < 64; a++ {
				for b := uint(0); b <= a; b++ {
					all = append(all, castKind(kc.Kind, 1<<a|1<<b), castKind(kc.Kind, ^(uint64(1)<<a|1<<b)), castKind(kc.Kind, 1<<a-1<<b))
				}
			}
		}
		for _, v := range all {
			if f := one(v); f != nil {
				return f
			}
		}
		addN(&c.Evaluations, len(all))
		for k, v := range seen {
			if len(k) <= 2 {
				c.Outcome(kc.Kind + v)
			}
		}
		return nil
	})

	// texts and Go values outside the type
	type badCase struct {
		Kind string `json:"kind"`
		Text string `json:"text"`
		Go   int    `json:"go"` // -1: text
	}
	two63 := "9223372036854775808"
	bad := map[string][]string{
		"bool": {"", "2", "-1", "yes", "tru", "truex", " true", "true ", "00", "01"},
	}
	common := []string{"", " ", "abc", "1.0", "1e3", "0x10", "1_000", " 1", "1 ", "--1", "1-", "one", "\x00", "1\n", "99999999999999999999", "-99999999999999999999", "18446744073709551616", "true"}
	bad["int32"] = append([]string{"2147483648", "-2147483649", "4294967295", "4294967296", two63, "-" + two63}, common...)
	bad["uint32"] = append([]string{"-1", "4294967296", "4294967297", two63, "18446744073709551615"}, common...)
	bad["int64"] = append([]string{two63, "-9223372036854775809", "18446744073709551615"}, common...)
	bad["uint64"] = append([]string{"-1", "-9223372036854775808"}, common...)
	bad["bytes"] = []string{"*", "a", "YQ!", "YWJjZ", "é", "Y Q", "YW-_"}
	goVals := []interface{}{nil, true, int(1), int8(1), int16(1), int32(1), int64(1), uint(1), uint8(1), uint16(1), uint32(1), uint64(1), float32(1), float64(1), "1", []byte("1"), []string{"1"}, new(string), struct{}{}, math.Inf(1), strconv.IntSize == 64, 'a', []interface{}{1}}
	okType := map[string]string{"bool": "bool", "int32": "int32", "uint32": "uint32", "int64": "int64", "uint64": "uint64", "string": "string", "bytes": "[]uint8"}
	Explore(c, "refused", func(emit func(badCase) bool) {
		for _, k := range kindNames {
			for _, t := range bad[k] {
				emit(badCase{k, t, -1})
			}
			for i, v := range goVals {
				if fmt.Sprintf("%T", v) != okType[k] {
					emit(badCase{k, "", i})
				}
			}
		}
	}, func(w *Worker, bc badCase) *Fail {
		e := mk(bc.Kind)
		var errs []error
		var desc string
		if bc.Go < 0 {
			desc = "text " + strconv.Quote(bc.Text)
			_, e1 := e.k.EncodeString(bc.Text)
			_, e2 := e.sch.EncodePrimaryKeyString(bc.Text)
			_, e3 := e.idx.EncodeString(bc.Text)
			errs = []error{e1, e2, e3}
		} else {
			desc = fmt.Sprintf("Go value %T", goVals[bc.Go])
			_, e1 := e.k.EncodeInterface(goVals[bc.Go])
			_, e2 := e.idx.EncodeInterface(goVals[bc.Go])
			errs = []error{e1, e2}
		}
		for i, err := range errs {
			if err == nil {
				return failf("accepted", "%s key accepts %s (entry %d)", bc.Kind, desc, i)
			}
		}
		return nil
	})
	_ = base64.RawStdEncoding
}

func castKind(kind string, u uint64) interface{} {
	switch kind {
	case "int32":
		return int32(u)
	case "uint32":
		return uint32(u)
	case "int64":
		return int64(u)
	}
	return u
}
