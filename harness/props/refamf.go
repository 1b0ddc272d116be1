package props

import (
	"encoding/binary"
	"fmt"
	"math"
	"strconv"

	"github.com/WatchBeam/amf0"
	"pgregory.net/rapid"
)

// Val is an AMF0 value; refamf.go is an independent encoder and decoder.
type Val struct {
	K string `json:"k"`           // num, bool, str, null, obj, arr, list
	N string `json:"n,omitempty"` // num: bits in hexadecimal
	B bool   `json:"b,omitempty"`
	S string `json:"s,omitempty"`
	// Fill > 0: a string of that many bytes.
	Fill  int      `json:"fill,omitempty"`
	Keys  []string `json:"keys,omitempty"`
	Elems []Val    `json:"elems,omitempty"`
}

func vNum(f float64) Val { return Val{K: "num", N: fmt.Sprintf("%x", math.Float64bits(f))} }
func vStr(s string) Val  { return Val{K: "str", S: s} }
func vBool(b bool) Val   { return Val{K: "bool", B: b} }
func vNull() Val         { return Val{K: "null"} }

func (v Val) num() float64 {
	b, _ := strconv.ParseUint(v.N, 16, 64)
	return math.Float64frombits(b)
}

func (v Val) str() string {
	if v.Fill > 0 {
		b := P{v.Fill, uint32(v.Fill)}.Data()
		for i := range b {
			b[i] = 'a' + b[i]%26
		}
		return string(b)
	}
	return v.S
}

func appendStr(b []byte, s string) []byte {
	return append(binary.BigEndian.AppendUint16(b, uint16(len(s))), s...)
}

// enc appends the encoding of v.
func (v Val) enc(b []byte) []byte {
	switch v.K {
	case "num":
		return binary.BigEndian.AppendUint64(append(b, 0), math.Float64bits(v.num()))
	case "bool":
		if v.B {
			return append(b, 1, 1)
		}
		return append(b, 1, 0)
	case "str":
		if s := v.str(); len(s) > 0xffff {
			return append(binary.BigEndian.AppendUint32(append(b, 0x0c), uint32(len(s))), s...)
		}
		return appendStr(append(b, 2), v.str())
	case "obj":
		b = append(b, 3)
	case "arr":
		b = binary.BigEndian.AppendUint32(append(b, 8), uint32(len(v.Elems)))
	case "list":
		b = binary.BigEndian.AppendUint32(append(b, 0x0a), uint32(len(v.Elems)))
		for _, e := range v.Elems {
			b = e.enc(b)
		}
		return b
	default:
		return append(b, 5)
	}
	for i, e := range v.Elems {
		b = e.enc(appendStr(b, v.Keys[i]))
	}
	return append(b, 0, 0, 9)
}

func encVals(vs ...Val) (b []byte) {
	for _, v := range vs {
		b = v.enc(b)
	}
	return
}

// eq compares v with a decoded value of the AMF0 library.
func (v Val) eq(a amf0.AmfType) bool {
	switch a := a.(type) {
	case *amf0.Number:
		return v.K == "num" && math.Float64bits(float64(*a)) == math.Float64bits(v.num())
	case *amf0.Boolean:
		return v.K == "bool" && bool(*a) == v.B
	case *amf0.String:
		return v.K == "str" && string(*a) == v.str()
	case *amf0.LongString:
		return v.K == "str" && string(*a) == v.str()
	case *amf0.Null:
		return v.K == "null"
	case *amf0.Object:
		return v.K == "obj" && v.eqPaired(a.Paired)
	case *amf0.Array:
		return v.K == "arr" && v.eqPaired(a.Paired)
	case *amf0.StrictArray:
		if v.K != "list" || len(a.Values) != len(v.Elems) {
			return false
		}
		for i, e := range v.Elems {
			if !e.eq(a.Values[i]) {
				return false
			}
		}
		return true
	}
	return false
}

func (v Val) eqPaired(p *amf0.Paired) bool {
	if p == nil {
		return len(v.Elems) == 0
	}
	if p.Len() != len(v.Elems) {
		return false
	}
	for i, e := range v.Elems {
		if p.Key(i) != v.Keys[i] || !e.eq(p.At(i)) {
			return false
		}
	}
	return true
}

// eqObj compares an argument that is an object or null with a field.
func (v Val) eqObj(o *amf0.Object) bool {
	if v.K == "null" {
		// The null object is nil or the empty object.
		return o == nil || o.Paired == nil || o.Len() == 0
	}
	return o != nil && v.eq(o)
}

// amf makes the library value.
func (v Val) amf() amf0.AmfType {
	switch v.K {
	case "num":
		return amf0.NewNumber(v.num())
	case "bool":
		return amf0.NewBool(v.B)
	case "str":
		if s := v.str(); len(s) > 0xffff {
			return amf0.NewLongString(s)
		}
		return amf0.NewString(v.str())
	case "obj":
		o := amf0.NewObject()
		for i, e := range v.Elems {
			o.Add(v.Keys[i], e.amf())
		}
		return o
	case "arr":
		o := amf0.NewArray()
		for i, e := range v.Elems {
			o.Add(v.Keys[i], e.amf())
		}
		return o
	case "list":
		o := new(amf0.StrictArray)
		for _, e := range v.Elems {
			o.Values = append(o.Values, e.amf())
		}
		return o
	}
	return new(amf0.Null)
}

// refDecodeVals decodes all of b.
func refDecodeVals(b []byte) (out []Val, err error) {
	for len(b) > 0 {
		var v Val
		if v, b, err = refDecodeVal(b); err != nil {
			return
		}
		out = append(out, v)
	}
	return
}

func refDecodeVal(b []byte) (v Val, rest []byte, err error) {
	bad := fmt.Errorf("malformed AMF0 at %x", b[:min(len(b), 12)])
	if len(b) < 1 {
		return v, nil, bad
	}
	m := b[0]
	b = b[1:]
	switch m {
	case 0:
		if len(b) < 8 {
			return v, nil, bad
		}
		return vNum(math.Float64frombits(binary.BigEndian.Uint64(b))), b[8:], nil
	case 1:
		if len(b) < 1 {
			return v, nil, bad
		}
		return vBool(b[0] != 0), b[1:], nil
	case 2, 0x0c:
		w := 2
		if m != 2 {
			w = 4
		}
		if len(b) < w {
			return v, nil, bad
		}
		n := 0
		for _, x := range b[:w] {
			n = n<<8 | int(x)
		}
		if len(b) < w+n {
			return v, nil, bad
		}
		return vStr(string(b[w : w+n])), b[w+n:], nil
	case 3, 8:
		v.K = "obj"
		if m == 8 {
			v.K = "arr"
			if len(b) < 4 {
				return v, nil, bad
			}
			b = b[4:]
		}
		for {
			if len(b) < 2 {
				return v, nil, bad
			}
			n := int(binary.BigEndian.Uint16(b))
			b = b[2:]
			if len(b) < n {
				return v, nil, bad
			}
			k := string(b[:n])
			b = b[n:]
			if k == "" && len(b) > 0 && b[0] == 9 {
				return v, b[1:], nil
			}
			var e Val
			if e, b, err = refDecodeVal(b); err != nil {
				return v, nil, err
			}
			v.Keys, v.Elems = append(v.Keys, k), append(v.Elems, e)
		}
	case 0x0a:
		v.K = "list"
		if len(b) < 4 {
			return v, nil, bad
		}
		n := binary.BigEndian.Uint32(b)
		b = b[4:]
		for ; n > 0; n-- {
			var e Val
			if e, b, err = refDecodeVal(b); err != nil {
				return v, nil, err
			}
			v.Elems = append(v.Elems, e)
		}
		return v, b, nil
	case 5:
		return vNull(), b, nil
	}
	return v, nil, bad
}

// same compares two values of the reference.
func (v Val) same(w Val) bool {
	if v.K != w.K || v.B != w.B || v.str() != w.str() || len(v.Elems) != len(w.Elems) {
		return false
	}
	if v.K == "num" && math.Float64bits(v.num()) != math.Float64bits(w.num()) {
		return false
	}
	for i := range v.Elems {
		if len(v.Keys) > 0 && v.Keys[i] != w.Keys[i] || !v.Elems[i].same(w.Elems[i]) {
			return false
		}
	}
	return true
}

func sameVals(a, b []Val) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !a[i].same(b[i]) {
			return false
		}
	}
	return true
}

func genNum(t *rapid.T) Val {
	return vNum(rapid.OneOf(
		rapid.SampledFrom([]float64{0, 1, 2, -1, 3.5, 5, 1e9, -2000, math.Inf(1), math.Copysign(0, -1), math.MaxFloat64, 4294967296}),
		rapid.Float64(), rapid.Map(rapid.IntRange(0, 5000), func(i int) float64 { return float64(i) })).Draw(t, "num"))
}

func genStr(t *rapid.T) Val {
	if chance(t, "fill", 4) {
		return Val{K: "str", Fill: oneOf(t, "fillLen", 127, 128, 129, 255, 256, 300, 4095, 4096, 4097, 65535)}
	}
	return vStr(rapid.OneOf(
		rapid.SampledFrom([]string{"", "a", "key", "live", "mp4:clip?x=1", "é\x00ü", "publish", "_result", "onStatus", "null", "\xff\xfe"}),
		rapid.StringN(0, 12, 24)).Draw(t, "str"))
}

func genVal(t *rapid.T, depth int) Val {
	k := oneOf(t, "valKind", "num", "bool", "str", "str", "null", "obj", "arr", "list")
	if depth <= 0 && (k == "obj" || k == "arr" || k == "list") {
		k = "num"
	}
	switch k {
	case "num":
		return genNum(t)
	case "bool":
		return vBool(rapid.Bool().Draw(t, "bool"))
	case "str":
		return genStr(t)
	case "null":
		return vNull()
	case "obj":
		return genObj(t, depth)
	case "arr":
		v := genObj(t, depth)
		v.K = "arr"
		return v
	}
	v := Val{K: "list"}
	for i, n := 0, genInt(t, "elems", 0, 3); i < n; i++ {
		v.Elems = append(v.Elems, genVal(t, depth-1))
	}
	return v
}

// genObj draws an object. Keys are not empty and differ.
func genObj(t *rapid.T, depth int) Val {
	v := Val{K: "obj"}
	seen := map[string]bool{}
	for i, n := 0, genInt(t, "pairs", 0, 4); i < n; i++ {
		k := rapid.OneOf(rapid.SampledFrom([]string{"app", "tcUrl", "level", "code", "description", "k"}), rapid.StringN(1, 6, 12)).Draw(t, "key")
		if k == "" || seen[k] {
			continue
		}
		seen[k] = true
		v.Keys = append(v.Keys, k)
		v.Elems = append(v.Elems, genVal(t, depth-1))
	}
	return v
}

func genObjOrNull(t *rapid.T) Val {
	if chance(t, "nullObj", 25) {
		return vNull()
	}
	return genObj(t, 2)
}
