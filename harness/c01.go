package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math"
	"math/rand"
	"net"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/fwhezfwhez/tcpx"
	gproto "github.com/golang/protobuf/proto"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"
)

func init() { props["C01"] = c01 }

// a marshaller of the user's own: length-prefixed, xor-ed bytes; refuses "bad".
// namesake carries another marshaller's name and works on nothing.
type namesake struct{ name string }

func (n namesake) Marshal(v interface{}) ([]byte, error) {
	return nil, errors.New("the wrong marshaller")
}
func (n namesake) Unmarshal(b []byte, d interface{}) error { return errors.New("the wrong marshaller") }
func (n namesake) MarshalName() string                     { return n.name }

type xorMarshaller struct{ name string }

func (x xorMarshaller) Marshal(v interface{}) ([]byte, error) {
	s, ok := v.(string)
	if !ok {
		return nil, errors.New("xor: only strings")
	}
	if s == "bad" {
		return []byte("partial"), errors.New("xor: refused")
	}
	b := make([]byte, len(s), len(s)+64) // spare capacity on purpose
	for i := range s {
		b[i] = s[i] ^ 0x5a
	}
	return b, nil
}
func (x xorMarshaller) Unmarshal(b []byte, d interface{}) error {
	p, ok := d.(*string)
	if !ok {
		return errors.New("xor: only *string")
	}
	o := make([]byte, len(b))
	for i := range b {
		o[i] = b[i] ^ 0x5a
	}
	*p = string(o)
	return nil
}
func (x xorMarshaller) MarshalName() string { return x.name }

// body value usable with xml, toml, yaml and json
type rec struct {
	Name string   `json:"name" xml:"name" toml:"name" yaml:"name"`
	N    int64    `json:"n" xml:"n" toml:"n" yaml:"n"`
	F    float64  `json:"f" xml:"f" toml:"f" yaml:"f"`
	B    bool     `json:"b" xml:"b" toml:"b" yaml:"b"`
	L    []string `json:"l" xml:"l" toml:"l" yaml:"l"`
	Sub  sub      `json:"sub" xml:"sub" toml:"sub" yaml:"sub"`
}
type sub struct {
	K string `json:"k" xml:"k" toml:"k" yaml:"k"`
	V int    `json:"v" xml:"v" toml:"v" yaml:"v"`
}

var idSet = []int32{0, 1, -1, 2, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 1392, 1393, -1392, math.MaxInt32, math.MinInt32, math.MaxInt32 - 1, math.MinInt32 + 1, 0x01020304, 1 << 24}

func genID(g *rand.Rand) int32 {
	if g.Intn(2) == 0 {
		return idSet[g.Intn(len(idSet))]
	}
	return int32(g.Uint32())
}

var sizeSet = []int{0, 1, 2, 3, 7, 8, 11, 12, 13, 15, 16, 17, 31, 100, 255, 256, 257, 990, 1000, 1007, 1008, 1009, 1011, 1012, 1013, 1019, 1020, 1021, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8192, 16384, 32767, 32768, 65519, 65520, 65535, 65536, 65537, 100000, 131072, 262144}

func genSize(g *rand.Rand) int {
	switch g.Intn(20) {
	case 0, 1, 2, 3, 4, 5, 6, 7:
		return sizeSet[g.Intn(len(sizeSet)-10)]
	case 8:
		return sizeSet[g.Intn(len(sizeSet))]
	case 9:
		return g.Intn(70000)
	default:
		return g.Intn(300)
	}
}

const alphabet = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 _-./:;,<>&'\"#@"

func asciiStr(g *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = alphabet[g.Intn(len(alphabet))]
	}
	return string(b)
}

// text that every codec must carry unchanged
func plainStr(g *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = alphabet[g.Intn(62)]
	}
	return string(b)
}

func uniStr(g *rand.Rand, n int) string {
	rs := []rune("é漢字😀\u0000\u2028\"\\\n\tаz<>&")
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteRune(rs[g.Intn(len(rs))])
	}
	return sb.String()
}

func genVal(g *rand.Rand, d int) interface{} {
	switch g.Intn(9) {
	case 0:
		return nil
	case 1:
		return g.Intn(2) == 0
	case 2:
		return float64(g.Intn(2000) - 1000)
	case 3:
		return g.NormFloat64()
	case 4:
		return uniStr(g, g.Intn(6))
	case 5:
		if d > 0 {
			l := make([]interface{}, g.Intn(4))
			for i := range l {
				l[i] = genVal(g, d-1)
			}
			return l
		}
	case 6:
		if d > 0 {
			m := map[string]interface{}{}
			for i := g.Intn(4); i > 0; i-- {
				m[asciiStr(g, 1+g.Intn(4))] = genVal(g, d-1)
			}
			return m
		}
	}
	return asciiStr(g, g.Intn(20))
}

func genHeader(g *rand.Rand) map[string]interface{} {
	switch g.Intn(8) {
	case 0:
		return nil
	case 1:
		return map[string]interface{}{}
	case 2:
		return map[string]interface{}{"big": asciiStr(g, genSize(g)%9000)}
	case 3:
		m := map[string]interface{}{}
		for i := g.Intn(120); i >= 0; i-- {
			m[fmt.Sprintf("k%d", i)] = float64(i)
		}
		return m
	case 4:
		return map[string]interface{}{tcpx.HEADER_ROUTER_KEY: tcpx.URLPATTERN, tcpx.HEADER_ROUTER_VALUE: "/x/" + uniStr(g, 2), "": "empty key", uniStr(g, 3): genVal(g, 2)}
	}
	m := map[string]interface{}{}
	for i := g.Intn(5); i >= 0; i-- {
		m[asciiStr(g, g.Intn(6))] = genVal(g, 2)
	}
	return m
}

// normal form of a header: what JSON can carry of it
func norm(h map[string]interface{}) map[string]interface{} {
	var o map[string]interface{}
	json.Unmarshal(jsonOf(h), &o)
	return o
}

func hdrEq(a, b map[string]interface{}) bool {
	if len(a) == 0 && len(b) == 0 {
		return true
	}
	// the types of the decoded values are those of encoding/json
	return reflect.DeepEqual(a, norm(b))
}

type bodyCase struct {
	kind  string // marshaller name
	m     tcpx.Marshaller
	v     interface{}        // value packed
	fresh func() interface{} // new destination
	same  func(d interface{}) bool
	raw   []byte // expected body bytes when known (custom)
	size  int
}

func genRec(g *rand.Rand, n int) rec {
	r := rec{Name: plainStr(g, n), N: int64(g.Uint64() >> 1), F: float64(g.Intn(4000)) + 0.5, B: g.Intn(2) == 0, L: []string{}, Sub: sub{K: plainStr(g, g.Intn(5)), V: g.Intn(1000) - 500}}
	for i := g.Intn(4); i >= 0; i-- {
		r.L = append(r.L, plainStr(g, 1+g.Intn(4)))
	}
	return r
}

// genTyped is sometimes a value of another type the codec can carry: the body is whatever
// the marshaller makes of the value, also for bytes, text, numbers and empty values.
func genTyped(g *rand.Rand, kind string, n int) interface{} {
	if g.Intn(3) != 0 {
		return nil
	}
	switch kind {
	case "json":
		switch g.Intn(16) {
		case 0, 1:
			return randBytes(g, n)
		case 2:
			return int64(g.Uint64())
		case 3:
			return g.Intn(2) == 0
		case 4:
			return []string{}
		case 5:
			return map[string]int{plainStr(g, 3): g.Int(), "": 0}
		case 6:
			return json.RawMessage(`{"a":[1,2,"x"]}`)
		case 7:
			return [3]int8{int8(g.Intn(200)), -1, 0}
		case 8:
			return []rec{genRec(g, 3), genRec(g, 0)}
		case 9:
			return struct{ A, B *int }{A: new(int)}
		case 10:
			return ""
		case 11:
			return uint64(g.Uint64())
		case 12:
			return []byte{}
		case 13:
			return [][]byte{randBytes(g, n%50), {}, []byte("12")}
		case 14: // bytes that could be taken for JSON already
			return []byte([]string{`{"a":1}`, "null", "12", `"aGk="`, "[]", "true", `[1,2]`}[g.Intn(7)])
		default:
			return []string{`{"a":1}`, "null", "12", `"aGk="`, "[]", "true", `[1,2]`}[g.Intn(7)]
		}
	case "xml":
		switch g.Intn(3) {
		case 0:
			return plainStr(g, 1+n%2000)
		case 1:
			return g.Int63()
		default:
			return g.Intn(2) == 0
		}
	case "yaml":
		switch g.Intn(5) {
		case 0:
			return "s " + plainStr(g, n%2000)
		case 1:
			return []string{plainStr(g, 3) + "_", "x: y", "- z"}
		case 2:
			return map[string]int{plainStr(g, 4) + "_": g.Intn(1000)}
		case 3:
			return g.Intn(1 << 30)
		default:
			return []byte(plainStr(g, n%300))
		}
	case "toml":
		return map[string]string{"k" + plainStr(g, 4): plainStr(g, n%2000), "j": ""}
	}
	return nil
}

func genBody(g *rand.Rand, kind string) bodyCase {
	n := genSize(g)
	bc := bodyCase{kind: kind, size: n}
	recFresh := func() interface{} { return &rec{} }
	if v := genTyped(g, kind, n); v != nil {
		t := reflect.TypeOf(v)
		bc.m = map[string]tcpx.Marshaller{"json": tcpx.JsonMarshaller{}, "xml": tcpx.XmlMarshaller{}, "toml": tcpx.TomlMarshaller{}, "yaml": tcpx.YamlMarshaller{}}[kind]
		bc.fresh = func() interface{} { return reflect.New(t).Interface() }
		bc.same = func(d interface{}) bool { return reflect.DeepEqual(reflect.ValueOf(d).Elem().Interface(), v) }
		bc.v = v
		if g.Intn(3) == 0 { // the same value behind a pointer
			p := reflect.New(t)
			p.Elem().Set(reflect.ValueOf(v))
			bc.v = p.Interface()
		}
		return bc
	}
	switch kind {
	case "json":
		bc.m = tcpx.JsonMarshaller{}
		switch g.Intn(4) {
		case 0:
			s := asciiStr(g, n)
			bc.v, bc.fresh = s, func() interface{} { return new(string) }
			bc.same = func(d interface{}) bool { return *d.(*string) == s }
		case 1:
			v := genVal(g, 3)
			if v == nil {
				v = "nil"
			}
			bc.v, bc.fresh = v, func() interface{} { return new(interface{}) }
			bc.same = func(d interface{}) bool {
				var w interface{}
				json.Unmarshal(jsonOf(v), &w)
				return reflect.DeepEqual(*d.(*interface{}), w)
			}
		default:
			r := genRec(g, n)
			bc.v, bc.fresh = r, recFresh
			bc.same = func(d interface{}) bool { return reflect.DeepEqual(*d.(*rec), r) }
		}
	case "xml", "toml", "yaml":
		r := genRec(g, n)
		bc.m = map[string]tcpx.Marshaller{"xml": tcpx.XmlMarshaller{}, "toml": tcpx.TomlMarshaller{}, "yaml": tcpx.YamlMarshaller{}}[kind]
		bc.v, bc.fresh = r, recFresh
		bc.same = func(d interface{}) bool { return reflect.DeepEqual(*d.(*rec), r) }
	case "protobuf":
		bc.m = tcpx.ProtobufMarshaller{}
		v := &wrapperspb.BytesValue{Value: randBytes(g, n)}
		bc.v, bc.fresh = v, func() interface{} { return &wrapperspb.BytesValue{} }
		bc.same = func(d interface{}) bool { return bytes.Equal(d.(*wrapperspb.BytesValue).Value, v.Value) }
	case "xor":
		s := asciiStr(g, n)
		m := xorMarshaller{"xor"}
		if s == "bad" {
			s = "bad1"
		}
		bc.m, bc.v, bc.fresh = m, s, func() interface{} { return new(string) }
		bc.same = func(d interface{}) bool { return *d.(*string) == s }
		bc.raw, _ = m.Marshal(s)
	}
	return bc
}

var codecNames = map[string][]string{"json": {"json"}, "xml": {"xml"}, "toml": {"toml", "tml"}, "yaml": {"yaml", "yml"}, "protobuf": {"protobuf", "proto"}}
var kinds = []string{"json", "xml", "toml", "yaml", "protobuf", "xor"}

type keptBlock struct {
	b []byte
	h uint64
}

func sum64(b []byte) uint64 { h := fnv.New64a(); h.Write(b); return h.Sum64() }

func c01(r *Rep) {
	r.Rule("one case = one message packed by one packing function and read back by every accessor; distinct by (function, marshaller, id class, header shape, size class); all are non-trivial")
	workers := 8
	per := r.N(1500)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			g := r.Sub(int64(w))
			var kept []keptBlock
			for i := 0; i < per; i++ {
				kind := kinds[g.Intn(len(kinds))]
				b := c01one(r, g, kind)
				if b != nil {
					kept = append(kept, keptBlock{b, sum64(b)})
				}
				if len(kept) > 40 {
					k := kept[g.Intn(len(kept))]
					if sum64(k.b) != k.h {
						r.Violation("a block returned earlier by a packing function was changed by later packing (shared buffer): %s", short(k.b))
					}
					kept = kept[1:]
				}
			}
			for _, k := range kept {
				if sum64(k.b) != k.h {
					r.Violation("a block returned earlier by a packing function was changed by later packing (shared buffer): %s", short(k.b))
				}
			}
		}(w)
	}
	wg.Wait()
	// a few big ones
	for _, n := range []int{1<<20 - 1, 1 << 20, 3<<20 + 5} {
		g := r.Sub(int64(n))
		body := randBytes(g, n)
		b, err := tcpx.PackJSON.PackWithBody(-5, body, map[string]interface{}{"n": n})
		if err != nil {
			r.Violation("PackWithBody of %d bytes: %v", n, err)
		}
		c01verify(r, "PackWithBody/big", b, -5, map[string]interface{}{"n": n}, body, nil)
		r.Case(fmt.Sprintf("big/%d", n))
	}
	c01huge(r)
	c01nils(r)
	c01errors(r)
	c01signals(r)
	c01wire(r)
}

// c01huge: lengths that need all their bytes.
func c01huge(r *Rep) {
	g := r.Sub(9931)
	n := 1<<24 + 3 + g.Intn(1000)
	body := randBytes(g, n)
	h := map[string]interface{}{"n": n}
	for name, f := range map[string]func() ([]byte, error){
		"PackWithBody": func() ([]byte, error) { return tcpx.PackJSON.PackWithBody(-6, body, h) },
		"PackWithMarshallerAndBody": func() ([]byte, error) {
			return tcpx.PackWithMarshallerAndBody(tcpx.Message{MessageID: -6, Header: h}, body)
		},
		"Packx.Pack": func() ([]byte, error) { return tcpx.NewPackx(rawMarshaller{}).Pack(-6, body, h) },
		"PackWithMarshaller": func() ([]byte, error) {
			return tcpx.PackWithMarshaller(tcpx.Message{MessageID: -6, Header: h, Body: body}, rawMarshaller{})
		},
		"Pack": func() ([]byte, error) { return tcpx.Pack(-6, h, body, rawMarshaller{}) },
	} {
		b, err := f()
		if err != nil {
			r.Violation("%s of a body of %d bytes: %v", name, n, err)
		}
		c01verify(r, name+"/huge", b, -6, h, body, nil)
		r.Case("huge/" + name)
	}
	// a large header
	hh := map[string]interface{}{"big": strings.Repeat("h", 1<<16+g.Intn(1<<20)), "x": "y"}
	for name, f := range map[string]func() ([]byte, error){
		"PackWithBody": func() ([]byte, error) { return tcpx.PackJSON.PackWithBody(6, body[:9], hh) },
		"Packx.Pack":   func() ([]byte, error) { return tcpx.NewPackx(rawMarshaller{}).Pack(6, body[:9], hh) },
	} {
		b, err := f()
		if err != nil {
			r.Violation("%s with a large header: %v", name, err)
		}
		c01verify(r, name+"/huge header", b, 6, hh, body[:9], nil)
		r.Case("hugeheader/" + name)
	}
}

// c01nils: values that are empty or nil inside are bodies like any other: the marshaller
// decides what they look like.
func c01nils(r *Rep) {
	vals := map[string]interface{}{
		"nil *rec": (*rec)(nil), "nil *string": (*string)(nil), "nil []int": []int(nil), "nil []byte": []byte(nil),
		"empty []byte": []byte{}, "nil map": map[string]int(nil), "empty map": map[string]int{}, "empty string": "", "zero": 0, "false": false,
		"empty struct": struct{}{}, "*struct{}": &struct{}{}, "nil inside": []interface{}{nil}, "empty rec": rec{}, "*rec": &rec{}, "json null": json.RawMessage("null"),
		"empty message": &wrapperspb.BytesValue{}, "nil message": (*wrapperspb.BytesValue)(nil), "nil func map": map[string]interface{}{"a": nil},
	}
	ms := map[string]tcpx.Marshaller{"json": tcpx.JsonMarshaller{}, "xml": tcpx.XmlMarshaller{}, "toml": tcpx.TomlMarshaller{}, "yaml": tcpx.YamlMarshaller{}, "protobuf": tcpx.ProtobufMarshaller{}, "seen": &seenMarshaller{}}
	for mn, m := range ms {
		for vn, v := range vals {
			var want []byte
			var werr error
			if func() (p bool) {
				defer func() { p = recover() != nil }()
				want, werr = m.Marshal(v)
				return
			}() {
				continue // the codec itself gives up
			}
			fs := map[string]func() ([]byte, error){
				"Packx.Pack":         func() ([]byte, error) { return tcpx.NewPackx(m).Pack(3, v) },
				"Packx.Pack/header":  func() ([]byte, error) { return tcpx.NewPackx(m).Pack(3, v, map[string]interface{}{}) },
				"PackWithMarshaller": func() ([]byte, error) { return tcpx.PackWithMarshaller(tcpx.Message{MessageID: 3, Body: v}, m) },
				"Pack":               func() ([]byte, error) { return tcpx.Pack(3, nil, v, m) },
				"Message.Pack":       func() ([]byte, error) { return (tcpx.Message{MessageID: 3, Body: v}).Pack(m) },
			}
			if _, ok := codecNames[mn]; ok {
				fs["PackWithMarshallerName"] = func() ([]byte, error) {
					return tcpx.PackWithMarshallerName(tcpx.Message{MessageID: 3, Body: v}, mn)
				}
			}
			for fn, f := range fs {
				b, err := f()
				if (err != nil) != (werr != nil) {
					r.Violation("%s of %s with %s: error %v, the marshaller returns %v", fn, vn, mn, err, werr)
				}
				if err == nil {
					got, e := parseFrame(b)
					if e != nil || got.ID != 3 || !bytes.Equal(got.Body, want) {
						r.Violation("%s of %s with %s: body on the wire is %s, the marshaller makes %s of it (%v)", fn, vn, mn, short(got.Body), short(want), e)
					}
				}
				r.Case(fmt.Sprintf("nil/%s/%s/%s", fn, mn, vn))
			}
		}
	}
}

// seenMarshaller writes down what it was asked to encode.
type seenMarshaller struct{}

func (*seenMarshaller) Marshal(v interface{}) ([]byte, error) {
	return []byte(fmt.Sprintf("%T:%+v", v, v)), nil
}
func (*seenMarshaller) Unmarshal(b []byte, d interface{}) error { return nil }
func (*seenMarshaller) MarshalName() string                     { return "seen" }

func clone(m map[string]interface{}) map[string]interface{} {
	if m == nil {
		return nil
	}
	o := map[string]interface{}{}
	for k, v := range m {
		o[k] = v
	}
	return o
}

func c01one(r *Rep, g *rand.Rand, kind string) []byte {
	id := genID(g)
	bc := genBody(g, kind)
	var hs []map[string]interface{}
	for i := g.Intn(4); i > 0; i-- {
		hs = append(hs, genHeader(g))
	}
	if len(hs) > 1 && g.Intn(2) == 0 { // force an override
		for _, h := range hs {
			if h != nil {
				h["dup"] = g.Intn(1000)
			}
		}
	}
	before := make([]map[string]interface{}, len(hs))
	want := map[string]interface{}{}
	for i, h := range hs {
		before[i] = clone(h)
		for k, v := range h {
			want[k] = v
		}
	}
	nilBody := g.Intn(25) == 0
	if nilBody && kind == "xor" {
		nilBody = false
	}
	v := bc.v
	if nilBody {
		v = nil
	}
	var out []byte
	var err error
	fn := ""
	wantBody := bc.raw
	noDecode := false
	single := genHeader(g)
	singleBefore := clone(single)
	switch g.Intn(9) {
	case 0, 1:
		fn = "Packx.Pack"
		out, err = tcpx.NewPackx(bc.m).Pack(id, v, hs...)
	case 2:
		fn = "PackWithMarshaller"
		m := bc.m
		if kind == "json" && g.Intn(2) == 0 {
			m = nil
		}
		out, err = tcpx.PackWithMarshaller(tcpx.Message{MessageID: id, Header: single, Body: v}, m)
		want = single
	case 3:
		if kind == "xor" {
			return nil
		}
		al := codecNames[kind]
		fn = "PackWithMarshallerName"
		out, err = tcpx.PackWithMarshallerName(tcpx.Message{MessageID: id, Header: single, Body: v}, al[g.Intn(len(al))])
		want = single
	case 4:
		fn = "Pack"
		out, err = tcpx.Pack(id, single, v, bc.m)
		want = single
	case 5:
		fn = "NewMessage.Pack"
		ms := tcpx.NewMessage(id, v)
		ms.Set("extra", "x")
		if ms.Get("extra") != "x" || ms.Get("no such") != nil {
			r.Violation("Message.Get does not return what Set stored")
		}
		out, err = ms.Pack(bc.m)
		want = map[string]interface{}{tcpx.HEADER_ROUTER_KEY: tcpx.MESSAGEID, tcpx.HEADER_ROUTER_VALUE: id, "extra": "x"}
	case 6:
		fn = "NewURLPatternMessage.Pack"
		u := []string{"/u/", "", "u", "//u//", " /u", "/u?a=b&c=%2F", "/U/", "5", "/"}[g.Intn(9)] + uniStr(g, g.Intn(4))
		out, err = tcpx.NewURLPatternMessage(u, v).Pack(bc.m)
		id = 0
		want = map[string]interface{}{tcpx.HEADER_ROUTER_KEY: tcpx.URLPATTERN, tcpx.HEADER_ROUTER_VALUE: u}
		if err == nil {
			if p, e := tcpx.URLPatternOf(out); e != nil || p != u {
				r.Violation("URLPatternOf(%q message) = %q, %v", u, p, e)
			}
			if p, e := tcpx.RouteTypeOf(out); e != nil || p != tcpx.URLPATTERN {
				r.Violation("RouteTypeOf(URL message) = %q, %v", p, e)
			}
			pt := tcpx.PackType(out)
			if p, e := pt.URLPattern(); e != nil || p != u {
				r.Violation("PackType.URLPattern(%q message) = %q, %v", u, p, e)
			}
		}
	case 7, 8:
		// a pre-marshalled body living inside a bigger array, with sentinels around it
		backing := randBytes(g, bc.size+64)
		cp := append([]byte(nil), backing...)
		body := backing[32 : 32+bc.size]
		if g.Intn(2) == 0 {
			fn = "PackWithBody"
			out, err = tcpx.NewPackx(bc.m).PackWithBody(id, body, hs...)
		} else {
			fn = "PackWithMarshallerAndBody"
			out, err = tcpx.PackWithMarshallerAndBody(tcpx.Message{MessageID: id, Header: single}, body)
			want = single
		}
		if !bytes.Equal(backing, cp) {
			r.Violation("%s changed the caller's body buffer", fn)
		}
		wantBody = append([]byte(nil), body...)
		noDecode = true
		nilBody = false
		if err == nil {
			// the block must be the framework's own copy
			for i := range backing {
				backing[i] ^= 0xff
			}
		}
	}
	desc := fmt.Sprintf("%s(marshaller %s, id %d, body size %d)", fn, kind, id, bc.size)
	if err != nil {
		r.Violation("%s failed on an encodable message: %v", desc, err)
	}
	for i := range hs {
		if !reflect.DeepEqual(hs[i], before[i]) {
			r.Violation("%s changed a header map of the caller", desc)
		}
	}
	if !reflect.DeepEqual(single, singleBefore) {
		r.Violation("%s changed the header map of the caller", desc)
	}
	if nilBody {
		wantBody = []byte{}
	}
	bcp := &bc
	if noDecode || nilBody {
		bcp = nil
	}
	c01verify(r, desc, out, id, want, wantBody, bcp)
	hk := len(want)
	if hk > 4 {
		hk = 5
	}
	idk := "neg"
	if id == 0 {
		idk = "0"
	} else if id > 0 {
		idk = "pos"
	}
	sz := 0
	for s := bc.size; s > 0; s >>= 2 {
		sz++
	}
	r.Case(fmt.Sprintf("%s/%s/%s/h%d/s%d/nil%v", fn, kind, idk, hk, sz, nilBody))
	r.Sample(map[string]interface{}{"call": desc, "header": trunc(string(jsonOf(want)), 120), "block": trunc(short(out), 120)})
	return out
}

// c01verify compares a block with what was packed, through our decoder and through every
// reading function of tcpx.
func c01verify(r *Rep, desc string, b []byte, id int32, hdr map[string]interface{}, body []byte, bc *bodyCase) {
	m, err := parseFrame(b)
	if err != nil {
		r.Violation("%s: block does not follow the layout: %v: %s", desc, err, short(b))
	}
	if m.ID != id {
		r.Violation("%s: block carries id %d", desc, m.ID)
	}
	var h map[string]interface{}
	if e := json.Unmarshal(m.Header, &h); e != nil {
		r.Violation("%s: header is not JSON: %v: %q", desc, e, m.Header)
	}
	if !hdrEq(h, hdr) {
		r.Violation("%s: header on the wire %q, given %s", desc, trunc(string(m.Header), 400), trunc(string(jsonOf(hdr)), 400))
	}
	if body != nil && !bytes.Equal(m.Body, body) {
		r.Violation("%s: body on the wire is %s, expected %s", desc, short(m.Body), short(body))
	}
	if bc != nil {
		d := bc.fresh()
		if e := refUnmarshal(bc, m.Body, d); e != nil || !bc.same(d) {
			r.Violation("%s: body on the wire does not decode to the value packed (%v): %s", desc, e, short(m.Body))
		}
	}
	// accessors, on the block alone and with trailing bytes
	for _, s := range [][]byte{b, append(append([]byte(nil), b...), 1, 2, 3, 4, 5)} {
		cs := sum64(s)
		px := tcpx.PackJSON
		l1, e1 := tcpx.LengthOf(s)
		l2, e2 := px.LengthOf(s)
		if e1 != nil || e2 != nil || int(l1) != len(b)-4 || l1 != l2 {
			r.Violation("%s: LengthOf = %d, %v", desc, l1, e1)
		}
		i1, e1 := tcpx.MessageIDOf(s)
		i2, e2 := px.MessageIDOf(s)
		pt := tcpx.PackType(s)
		i3, e3 := pt.MessageID()
		if e1 != nil || e2 != nil || e3 != nil || i1 != id || i2 != id || i3 != id {
			r.Violation("%s: MessageIDOf = %d/%d/%d, %v", desc, i1, i2, i3, e1)
		}
		h1, e1 := tcpx.HeaderLengthOf(s)
		h2, e2 := px.HeaderLengthOf(s)
		if e1 != nil || e2 != nil || int(h1) != len(m.Header) || h1 != h2 {
			r.Violation("%s: HeaderLengthOf = %d, %v, want %d", desc, h1, e1, len(m.Header))
		}
		b1, e1 := tcpx.BodyLengthOf(s)
		b2, e2 := px.BodyLengthOf(s)
		if e1 != nil || e2 != nil || int(b1) != len(m.Body) || b1 != b2 {
			r.Violation("%s: BodyLengthOf = %d, %v, want %d", desc, b1, e1, len(m.Body))
		}
		hb1, e1 := tcpx.HeaderBytesOf(s)
		hb2, e2 := px.HeaderBytesOf(s)
		if e1 != nil || e2 != nil || !bytes.Equal(hb1, m.Header) || !bytes.Equal(hb2, m.Header) {
			r.Violation("%s: HeaderBytesOf = %q, %v", desc, hb1, e1)
		}
		// what one caller does to the header it got back is nobody else's
		if hm, _ := tcpx.HeaderOf(s); hm != nil {
			for k := range hm {
				hm[k] = "scribble"
			}
			hm["scribble"] = 1
		}
		hm1, e1 := tcpx.HeaderOf(s)
		hm2, e2 := px.HeaderOf(s)
		if e1 != nil || e2 != nil || !hdrEq(hm1, hdr) || !hdrEq(hm2, hdr) {
			r.Violation("%s: HeaderOf = %v, %v", desc, hm1, e1)
		}
		bb1, e1 := tcpx.BodyBytesOf(s)
		bb2, e2 := px.BodyBytesOf(s)
		ctx := tcpx.NewContext(nil, nil)
		ctx.Stream = s
		bb3, e3 := ctx.RawStream()
		if e1 != nil || e2 != nil || e3 != nil || !bytes.Equal(bb1, m.Body) || !bytes.Equal(bb2, m.Body) || !bytes.Equal(bb3, m.Body) {
			r.Violation("%s: BodyBytesOf = %s, %v", desc, short(bb1), e1)
		}
		fb1, e1 := tcpx.FirstBlockOfBytes(s)
		fb2, e2 := px.FirstBlockOfBytes(s)
		if e1 != nil || e2 != nil || !bytes.Equal(fb1, b) || !bytes.Equal(fb2, b) {
			r.Violation("%s: FirstBlockOfBytes = %s, %v", desc, short(fb1), e1)
		}
		ui, uh, ub, e1 := tcpx.UnPackFromReader(bytes.NewReader(s))
		if e1 != nil || ui != id || !hdrEq(uh, hdr) || !bytes.Equal(ub, m.Body) {
			r.Violation("%s: UnPackFromReader = %d, %v, %s, %v", desc, ui, uh, short(ub), e1)
		}
		if sum64(s) != cs {
			r.Violation("%s: a reading function changed the block", desc)
		}
		if bc == nil {
			continue
		}
		check := func(how string, d interface{}, ms *tcpx.Message, e error) {
			if e != nil || !bc.same(d) {
				r.Violation("%s: %s does not give back the body packed (error %v)", desc, how, e)
			}
			if ms != nil {
				if ms.MessageID != id || !hdrEq(ms.Header, hdr) {
					r.Violation("%s: %s gives id %d header %v", desc, how, ms.MessageID, ms.Header)
				}
				if ms.Header != nil {
					ms.Set("scribble", how)
				}
				if _, isProto := d.(proto.Message); !isProto && !reflect.DeepEqual(ms.Body, reflect.ValueOf(d).Elem().Interface()) {
					r.Violation("%s: %s returns a Message whose Body is not the decoded value", desc, how)
				}
			}
		}
		d := bc.fresh()
		ms, e := tcpx.NewPackx(bc.m).Unpack(s, d)
		check("Unpack", d, &ms, e)
		d = bc.fresh()
		ms, e = tcpx.UnpackWithMarshaller(s, d, bc.m)
		check("UnpackWithMarshaller", d, &ms, e)
		d = bc.fresh()
		ctx = tcpx.NewContext(nil, bc.m)
		ctx.Stream = s
		ms, e = ctx.Bind(d)
		check("Context.Bind", d, &ms, e)
		d = bc.fresh()
		ctx = tcpx.NewContext(nil, xorMarshaller{"other"})
		ctx.Stream = s
		ms, e = ctx.BindWithMarshaller(d, bc.m)
		check("Context.BindWithMarshaller", d, &ms, e)
		d = bc.fresh()
		ctx = tcpx.NewContext(nil, namesake{bc.m.MarshalName()})
		ctx.Stream = s
		ms, e = ctx.BindWithMarshaller(d, bc.m)
		check("Context.BindWithMarshaller with a namesake of the server's", d, &ms, e)
		for _, al := range codecNames[bc.kind] {
			d = bc.fresh()
			ms, e = tcpx.UnpackWithMarshallerName(s, d, al)
			check("UnpackWithMarshallerName "+al, d, &ms, e)
			mm, e := tcpx.GetMarshallerByMarshalName(al)
			if e != nil || mm.MarshalName() != bc.kind {
				r.Violation("GetMarshallerByMarshalName(%q) = %v, %v", al, mm, e)
			}
			d = bc.fresh()
			ms, e = tcpx.NewPackx(mm).Unpack(s, d)
			check("Unpack via GetMarshallerByMarshalName "+al, d, &ms, e)
		}
		d = bc.fresh()
		switch bc.kind {
		case "json":
			check("BindJSON", d, nil, pt.BindJSON(d))
			d = bc.fresh()
			check("utils.BindJSON", d, nil, tcpx.BindJSON(bb1, d))
			d = bc.fresh()
			ms, e = tcpx.UnpackWithMarshaller(s, d, nil)
			check("UnpackWithMarshaller nil", d, &ms, e)
		case "xml":
			check("BindXML", d, nil, pt.BindXML(d))
		case "toml":
			check("BindTOML", d, nil, pt.BindTOML(d))
		case "yaml":
			check("BindYAML", d, nil, pt.BindYAML(d))
		case "protobuf":
			check("BindProtobuf", d, nil, pt.BindProtobuf(d.(proto.Message)))
		}
		if sum64(s) != cs {
			r.Violation("%s: a decoding function changed the block", desc)
		}
	}
}

// refUnmarshal decodes with the codec libraries themselves, not through tcpx.
func refUnmarshal(bc *bodyCase, b []byte, d interface{}) error {
	return libUnmarshal(bc.kind, b, d)
}

func c01errors(r *Rep) {
	badHdr := map[string]interface{}{"c": make(chan int)}
	okHdr := map[string]interface{}{"a": 1}
	xor := xorMarshaller{"xor"}
	type ec struct {
		name string
		f    func() ([]byte, error)
	}
	var cases []ec
	add := func(name string, f func() ([]byte, error)) { cases = append(cases, ec{name, f}) }
	for _, k := range kinds {
		bc := genBody(r.Sub(5), k)
		m, v := bc.m, bc.v
		add(k+" Pack bad header", func() ([]byte, error) { return tcpx.NewPackx(m).Pack(1, v, okHdr, badHdr) })
		add(k+" Pack bad header first", func() ([]byte, error) { return tcpx.NewPackx(m).Pack(1, v, badHdr, okHdr) })
		add(k+" PackWithBody bad header", func() ([]byte, error) { return tcpx.NewPackx(m).PackWithBody(1, []byte("x"), badHdr) })
		add(k+" PackWithMarshaller bad header", func() ([]byte, error) {
			return tcpx.PackWithMarshaller(tcpx.Message{MessageID: 1, Header: badHdr, Body: v}, m)
		})
		add(k+" PackWithMarshallerAndBody bad header", func() ([]byte, error) {
			return tcpx.PackWithMarshallerAndBody(tcpx.Message{MessageID: 1, Header: badHdr}, []byte("x"))
		})
		add(k+" func Pack bad header", func() ([]byte, error) { return tcpx.Pack(1, badHdr, v, m) })
	}
	bad := map[string]interface{}{"json": map[string]interface{}{"f": func() {}}, "xml": map[string]string{"a": "b"}, "protobuf": "not a message"}
	for k, v := range bad {
		m, _ := tcpx.GetMarshallerByMarshalName(k)
		v := v
		k := k
		add(k+" Pack bad body", func() ([]byte, error) { return tcpx.NewPackx(m).Pack(1, v, okHdr) })
		add(k+" Pack bad body no header", func() ([]byte, error) { return tcpx.NewPackx(m).Pack(1, v) })
		add(k+" PackWithMarshallerName bad body", func() ([]byte, error) {
			return tcpx.PackWithMarshallerName(tcpx.Message{MessageID: 1, Body: v}, k)
		})
		add(k+" Message.Pack bad body", func() ([]byte, error) { return tcpx.NewMessage(1, v).Pack(m) })
		add(k+" URL message bad body", func() ([]byte, error) { return tcpx.NewURLPatternMessage("/u", v).Pack(m) })
	}
	add("custom refuses", func() ([]byte, error) { return tcpx.NewPackx(xor).Pack(1, "bad") })
	add("custom refuses with header", func() ([]byte, error) { return tcpx.Pack(1, okHdr, "bad", xor) })
	add("custom wrong type", func() ([]byte, error) { return tcpx.NewPackx(xor).Pack(1, 5) })
	for _, n := range []string{"", "JSON", "jsonx", "gob", " json", "pb", "protobuf2"} {
		n := n
		add("unknown marshaller "+n, func() ([]byte, error) {
			return tcpx.PackWithMarshallerName(tcpx.Message{MessageID: 1, Body: "x"}, n)
		})
		if m, err := tcpx.GetMarshallerByMarshalName(n); err == nil {
			r.Violation("GetMarshallerByMarshalName(%q) accepted an unknown name: %v", n, m)
		}
		var s string
		if _, err := tcpx.UnpackWithMarshallerName(frame(1, nil, []byte(`"x"`)), &s, n); err == nil {
			r.Violation("UnpackWithMarshallerName accepted unknown marshaller %q", n)
		}
	}
	for _, c := range cases {
		b, err := c.f()
		if err == nil {
			r.Violation("%s: packing something that cannot be encoded returned no error", c.name)
		}
		if len(b) != 0 {
			r.Violation("%s: packing failed (%v) but returned %d bytes", c.name, err, len(b))
		}
		r.Case("err/" + c.name)
	}
	var m tcpx.Message
	m.Set("k", 1)
	if m.Get("k") != 1 {
		r.Violation("Message.Set on a message without header is lost")
	}
	if (tcpx.Message{}).Get("k") != nil {
		r.Violation("Message.Get on a message without header is not nil")
	}
}

func c01signals(r *Rep) {
	for _, id := range idSet {
		c01verify(r, fmt.Sprintf("PackStuff(%d)", id), tcpx.PackStuff(id), id, nil, []byte{}, nil)
		r.Case(fmt.Sprintf("stuff/%d", id))
	}
	c01verify(r, "PackHeartbeat", tcpx.PackHeartbeat(), 1392, nil, []byte{}, nil)
	// package level packers
	for k, px := range map[string]*tcpx.Packx{"json": tcpx.PackJSON, "toml": tcpx.PackTOML, "xml": tcpx.PackXML, "yaml": tcpx.PackYAML, "protobuf": tcpx.PackProtobuf} {
		for i := 0; i < 30; i++ {
			bc := genBody(r.Sub(int64(100+i)), k)
			b, err := px.Pack(int32(i), bc.v, map[string]interface{}{"i": i})
			if err != nil {
				r.Violation("package-level %s packer: %v", k, err)
			}
			c01verify(r, "package-level packer "+k, b, int32(i), map[string]interface{}{"i": i}, nil, &bc)
			r.Case("var/" + k)
		}
	}
}

// c01wire checks the helpers that write packed messages to a connection.
func c01wire(r *Rep) {
	g := r.Sub(77)
	for i := 0; i < r.N(40); i++ {
		bc := genBody(g, "json")
		id := genID(g)
		a, b := net.Pipe()
		errc := make(chan error, 1)
		go func() { errc <- tcpx.WriteJSON(a, id, bc.v); a.Close() }()
		data, err := io.ReadAll(b)
		if e := <-errc; e != nil || err != nil {
			r.Violation("WriteJSON failed on an encodable message: %v %v", e, err)
		}
		c01verify(r, "WriteJSON", data, id, nil, nil, &bc)
		r.Case("WriteJSON")
	}
	l, err := net.Listen("tcp", nextAddr())
	if err != nil {
		r.HarnessError("listen: %v", err)
	}
	defer l.Close()
	for i := 0; i < r.N(20); i++ {
		bc := genBody(g, "json")
		id := genID(g)
		errc := make(chan error, 1)
		go func() { errc <- tcpx.TCPCallOnceJSON("tcp", l.Addr().String(), int(id), bc.v) }()
		l.(*net.TCPListener).SetDeadline(time.Now().Add(30 * time.Second))
		c, err := l.Accept()
		if err != nil {
			r.Violation("TCPCallOnceJSON did not connect: %v (%v)", err, <-errc)
		}
		data, _ := ended(c, longWait)
		c.Close()
		if e := <-errc; e != nil {
			r.Violation("TCPCallOnceJSON: %v", e)
		}
		c01verify(r, "TCPCallOnceJSON", data, id, nil, nil, &bc)
		r.Case("TCPCallOnceJSON")
	}
	// unencodable: error, no bytes
	a, b := net.Pipe()
	got := make(chan []byte, 1)
	go func() { d, _ := io.ReadAll(b); got <- d }()
	if e := tcpx.WriteJSON(a, 1, make(chan int)); e == nil {
		r.Violation("WriteJSON of an unencodable value returned no error")
	}
	a.Close()
	if d := <-got; len(d) != 0 {
		r.Violation("WriteJSON of an unencodable value wrote %d bytes", len(d))
	}
	_ = binary.BigEndian
	_ = gproto.Marshal
}
