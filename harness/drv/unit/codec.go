package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	"math"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata/texttype"

	"vharness/rig"
)

// Values are described by {t, d} with numbers as big-endian hex, texts and blobs
// as hex, lists {t, e: [...]}, maps {t, kv: [[key, value], ...]}.

func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

func num(s string) int64 {
	b := unhex(s)
	var x int64
	if len(b) > 0 && b[0] >= 128 {
		x = -1
	}
	for _, c := range b {
		x = x<<8 | int64(c)
	}
	return x
}

func numHex(x int64, n int) string {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, uint64(x))
	return hex.EncodeToString(b[8-n:])
}

func mkValue(m M) netdata.Value {
	d := rig.Str(m, "d")
	switch rig.Str(m, "t") {
	case "go": // a nil interface
		return nil
	case "null":
		return netdata.NewNilValue()
	case "bool":
		return netdata.NewBooleanValue(d == "01")
	case "dec":
		return netdata.NewDecimalValue(num(d))
	case "f32":
		return netdata.NewFloatValue(math.Float32frombits(uint32(num(d))))
	case "f64":
		v := netdata.NewDoubleEmptyValue()
		v.Value = math.Float64frombits(uint64(num(d)))
		return v
	case "text":
		return netdata.NewTextValue(string(unhex(d)))
	case "hash":
		return netdata.NewTextHashValue(int32(num(d)))
	case "blob":
		return netdata.NewBlobValue(unhex(d))
	case "ip4":
		b := unhex(d)
		return netdata.NewIp4Value(fmt.Sprintf("%d.%d.%d.%d", b[0], b[1], b[2], b[3]))
	case "list":
		l := netdata.NewListValue()
		for _, e := range arr(m["e"]) {
			e := e.(map[string]interface{})
			switch rig.Str(e, "via") {
			case "int64":
				l.AddInt64(num(rig.Str(e, "d")))
			case "int32":
				l.AddInt32(int32(num(rig.Str(e, "d"))))
			case "float":
				l.AddFloat(math.Float32frombits(uint32(num(rig.Str(e, "d")))))
			case "string":
				l.AddString(string(unhex(rig.Str(e, "d"))))
			case "bool":
				l.AddBoolean(rig.Str(e, "d") == "01")
			default:
				l.Add(mkValue(e))
			}
		}
		return l
	case "map":
		v := netdata.NewMapValue()
		for _, kv := range arr(m["kv"]) {
			p := arr(kv)
			e := p[1].(map[string]interface{})
			v.Put(string(unhex(p[0].(string))), native(e))
		}
		return v
	}
	panic("value " + rig.Str(m, "t"))
}

func arr(x interface{}) []interface{} {
	a, _ := x.([]interface{})
	return a
}

// native is the Go value handed to Put: a plain one if the description says so
func native(e M) interface{} {
	d := rig.Str(e, "d")
	switch rig.Str(e, "via") {
	case "string":
		return string(unhex(d))
	case "int":
		return int(num(d))
	case "int32":
		return int32(num(d))
	case "int64":
		return num(d)
	case "uint32":
		return uint32(num(d))
	case "uint":
		return uint(num(d))
	case "uint64":
		return uint64(num(d))
	case "bool":
		return d == "01"
	case "float":
		return math.Float32frombits(uint32(num(d)))
	}
	return mkValue(e)
}

func descValue(v netdata.Value) M {
	switch x := v.(type) {
	case nil:
		return M{"t": "go"}
	case *netdata.NilValue:
		return M{"t": "null"}
	case *netdata.BooleanValue:
		if x.Value {
			return M{"t": "bool", "d": "01"}
		}
		return M{"t": "bool", "d": "00"}
	case *netdata.DecimalValue:
		return M{"t": "dec", "d": numHex(x.Value, 8)}
	case *netdata.Float32Value:
		return M{"t": "f32", "d": numHex(int64(math.Float32bits(x.Value)), 4)}
	case *netdata.DoubleValue:
		return M{"t": "f64", "d": numHex(int64(math.Float64bits(x.Value)), 8)}
	case *netdata.TextValue:
		return M{"t": "text", "d": hex.EncodeToString([]byte(x.Value))}
	case *netdata.TextHashValue:
		return M{"t": "hash", "d": numHex(int64(x.Value), 4)}
	case *netdata.BlobValue:
		return M{"t": "blob", "d": hex.EncodeToString(x.Value)}
	case *netdata.Ip4Value:
		return M{"t": "ip4", "d": hex.EncodeToString(x.Value)}
	case *netdata.ListValue:
		e := []M{}
		for _, y := range x.Value {
			e = append(e, descValue(y))
		}
		return M{"t": "list", "e": e}
	case *netdata.MapValue:
		return descMap(x.Table)
	}
	return M{"t": fmt.Sprintf("%T", v)}
}

func descMap(t map[string]netdata.Value) M {
	kv := [][]interface{}{}
	for k, y := range t {
		kv = append(kv, []interface{}{hex.EncodeToString([]byte(k)), descValue(y)})
	}
	return M{"t": "map", "kv": kv}
}

type getter interface {
	GetString(string) string
	GetBoolean(string) bool
	GetInt8(string) int8
	GetInt16(string) int16
	GetInt32(string) int32
	GetInt64(string) int64
}

func gets(g getter, keys []string) []interface{} {
	out := []interface{}{}
	for _, k := range keys {
		out = append(out, []interface{}{hex.EncodeToString([]byte(k)), hex.EncodeToString([]byte(g.GetString(k))), g.GetBoolean(k),
			numHex(int64(g.GetInt8(k)), 1), numHex(int64(g.GetInt16(k)), 2), numHex(int64(g.GetInt32(k)), 4), numHex(g.GetInt64(k), 8)})
	}
	return out
}

// fields: [[type, content], ...]
func writeField(o *netdata.DataOutputX, ty string, x interface{}) {
	d, _ := x.(string)
	switch ty {
	case "i8":
		o.WriteInt8(int8(num(d)))
	case "u8":
		o.WriteUInt8(uint8(num(d)))
	case "bool":
		o.WriteBoolean(d == "01")
	case "i16":
		o.WriteInt16(int16(num(d)))
	case "i32":
		o.WriteInt32(int32(num(d)))
	case "i64":
		o.WriteInt64(num(d))
	case "u64":
		o.WriteUInt64(uint64(num(d)))
	case "f32":
		o.WriteFloat32(math.Float32frombits(uint32(num(d))))
	case "f64":
		o.WriteFloat64(math.Float64frombits(uint64(num(d))))
	case "dec":
		o.WriteDecimal(num(d))
	case "dec32":
		o.WriteDecimal32(int32(num(d)))
	case "str":
		o.WriteString(string(unhex(d)))
	case "blob":
		o.WriteBlob(unhex(d))
	case "intbytes":
		o.WriteIntBytes(unhex(d))
	case "raw":
		o.Write(unhex(d))
	case "value":
		o.WriteValue(mkValue(x.(map[string]interface{})))
	default:
		panic("field " + ty)
	}
}

func readField(in *netdata.DataInputX, ty string, n int) (interface{}, error) {
	switch ty {
	case "i8":
		v, err := in.ReadInt8()
		return numHex(int64(v), 1), err
	case "u8":
		v, err := in.ReadUInt8()
		return numHex(int64(v), 1), err
	case "bool":
		v, err := in.ReadBoolean()
		if v {
			return "01", err
		}
		return "00", err
	case "i16":
		v, err := in.ReadInt16()
		return numHex(int64(v), 2), err
	case "i32":
		v, err := in.ReadInt32()
		return numHex(int64(v), 4), err
	case "i64", "u64":
		v, err := in.ReadInt64()
		return numHex(v, 8), err
	case "f32":
		v, err := in.ReadFloat32()
		return numHex(int64(math.Float32bits(v)), 4), err
	case "f64":
		v, err := in.ReadFloat64()
		return numHex(int64(math.Float64bits(v)), 8), err
	case "dec", "dec32":
		v, err := in.ReadDecimal()
		return numHex(v, 8), err
	case "str":
		v, err := in.ReadString()
		return hex.EncodeToString([]byte(v)), err
	case "blob":
		v, err := in.ReadBlob()
		return hex.EncodeToString(v), err
	case "intbytes":
		v, err := in.ReadIntBytes()
		return hex.EncodeToString(v), err
	case "raw":
		v, err := in.Read(int32(n))
		return hex.EncodeToString(v), err
	case "value":
		v, err := in.ReadValue()
		return descValue(v), err
	}
	panic("field " + ty)
}

func mkPack(p string, f []interface{}) netdata.Pack {
	s := func(i int) string { return string(unhex(f[i].(string))) }
	n := func(i int) int64 { return num(f[i].(string)) }
	n32 := func(i int) int32 { return int32(num(f[i].(string))) }
	b := func(i int) bool { return f[i].(string) == "01" }
	mv := func(i int) *netdata.MapValue { return mkValue(f[i].(map[string]interface{})).(*netdata.MapValue) }
	switch p {
	case "map":
		m := netdata.NewMapPack()
		for _, kv := range arr(f[0].(map[string]interface{})["kv"]) {
			q := arr(kv)
			m.Put(string(unhex(q[0].(string))), native(q[1].(map[string]interface{})))
		}
		return m
	case "text":
		return &netdata.TextPack{Xtype: texttype.TextType(s(0)), Hash: n32(1), Text: s(2)}
	case "alert":
		return &netdata.AlertPack{Time: n(0), Level: netdata.AlertLevel(n(1)), ObjType: s(2), ObjHash: n32(3), Title: s(4), Message: s(5), Tags: mv(6)}
	case "object":
		return &netdata.ObjectPack{ObjType: s(0), ObjHash: n32(1), ObjName: s(2), Address: s(3), Version: s(4), Alive: b(5), Wakeup: n(6), Tags: mv(7)}
	case "object2":
		return &netdata.ObjectPack2{SiteID: s(0), ObjType: s(1), ObjHash: n32(2), ObjName: s(3), Address: s(4), Version: s(5), Alive: b(6), Wakeup: n(7), Family: int8(n(8)), Tags: mv(9)}
	case "perf":
		return &netdata.PerfCounterPack{Time: n(0), ObjName: s(1), Timetype: int8(n(2)), Data: mv(3)}
	case "profile":
		return &netdata.XlogProfilePack{Time: n(0), ObjHash: n32(1), Service: n32(2), Txid: n(3), Profile: unhex(f[4].(string))}
	case "xlog":
		return &netdata.XlogPack{EndTime: n(0), ObjHash: n32(1), Service: n32(2), Txid: n(3), Caller: n(4), Gxid: n(5), Elapsed: n32(6), Error: n32(7),
			Cpu: n32(8), SqlCount: n32(9), SqlTime: n32(10), Ipaddr: unhex(f[11].(string)), Kbytes: n32(12), Status: n32(13), Userid: n(14),
			UserAgent: n32(15), Referer: n32(16), Group: n32(17), ApicallCount: n32(18), ApicallTime: n32(19), CountryCode: s(20), City: n32(21),
			XType: netdata.XlogType(n(22)), Login: n32(23), Desc: n32(24), WebHash: n32(25), WebTime: n32(26), HasDump: byte(n(27)),
			ThreadNameHash: n32(28), Text1: s(29), Text2: s(30), QueuingHostHash: n32(31), QueuingTime: n32(32), Queuing2ndHostHash: n32(33),
			Queuing2ndTime: n32(34), Text3: s(35), Text4: s(36), Text5: s(37), ProfileCount: n32(38), B3Mode: b(39), ProfileSize: n32(40),
			DiscardType: netdata.XlogDiscardType(n(41)), IgnoreGlobalConsequentSampling: b(42)}
	}
	panic("pack " + p)
}

func h32(x int32) string { return numHex(int64(x), 4) }
func hs(x string) string { return hex.EncodeToString([]byte(x)) }
func hb(x bool) string {
	if x {
		return "01"
	}
	return "00"
}

func descPack(p netdata.Pack) (string, []interface{}) {
	switch x := p.(type) {
	case *netdata.MapPack:
		return "map", []interface{}{descMap(x.Table)}
	case *netdata.ObjectPack:
		return "object", []interface{}{hs(x.ObjType), h32(x.ObjHash), hs(x.ObjName), hs(x.Address), hs(x.Version), hb(x.Alive), numHex(x.Wakeup, 8), descValue(x.Tags)}
	case *netdata.ObjectPack2:
		return "object2", []interface{}{hs(x.SiteID), hs(x.ObjType), h32(x.ObjHash), hs(x.ObjName), hs(x.Address), hs(x.Version), hb(x.Alive), numHex(x.Wakeup, 8), numHex(int64(x.Family), 1), descValue(x.Tags)}
	case *netdata.PerfCounterPack:
		return "perf", []interface{}{numHex(x.Time, 8), hs(x.ObjName), numHex(int64(x.Timetype), 1), descValue(x.Data)}
	}
	return fmt.Sprintf("%T", p), nil
}

func mkStep(p string, f []interface{}) netdata.Step {
	n := func(i int) int64 { return num(f[i].(string)) }
	n32 := func(i int) int32 { return int32(num(f[i].(string))) }
	ss := netdata.SingleStep{Parent: n32(0), Index: n32(1), StartTime: n32(2)}
	switch p {
	case "method":
		return &netdata.MethodStep{SingleStep: ss, Hash: n32(4), Elapsed: n32(5), CpuTime: n32(6)}
	case "message":
		return &netdata.MessageStep{SingleStep: ss, Message: string(unhex(f[4].(string)))}
	case "api":
		s := &netdata.ApiCallStep{SingleStep: ss, Txid: n(4), Hash: n32(5), Elapsed: n32(6), CpuTime: n32(7), Error: n32(8), Opt: uint8(n(9))}
		s.Address = string(unhex(f[10].(string)))
		return s
	case "hashed":
		return &netdata.HashedMessageStep{SingleStep: ss, Hash: n32(4), Time: n32(5), Value: n32(6)}
	case "async":
		return &netdata.AsyncServiceStep{SingleStep: ss, Txid: n(4), Hash: n32(5), Elapsed: n32(6)}
	case "pmessage":
		s := netdata.NewPMessageStep(n32(2))
		s.Parent, s.Index = n32(0), n32(1)
		var ps []string
		for _, x := range arr(f[7]) {
			ps = append(ps, string(unhex(x.(string))))
		}
		s.SetMessage(n32(4), ps...)
		s.Elapsed, s.Level = n32(5), netdata.PMessageLevel(n32(6))
		return s
	}
	panic("step " + p)
}

// a reader that hands out the bytes in pieces of the given sizes (0: nothing, no
// error); eof says whether the last piece comes together with the end
type pieces struct {
	b     []byte
	sizes []int
	i     int
	eof   bool
	zeros int
}

func (r *pieces) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	n := len(r.b)
	if len(r.sizes) > 0 {
		n = r.sizes[r.i%len(r.sizes)]
		r.i++
	}
	if n == 0 {
		r.zeros++
		if r.zeros%3 != 0 {
			return 0, nil
		}
		n = 1
	}
	if n > len(p) {
		n = len(p)
	}
	if n > len(r.b) {
		n = len(r.b)
	}
	copy(p, r.b[:n])
	r.b = r.b[n:]
	if len(r.b) == 0 && r.eof {
		return n, io.EOF
	}
	return n, nil
}

func decode(op M, b []byte) (res M) {
	defer func() {
		if r := recover(); r != nil {
			res = M{"panic": fmt.Sprint(r)}
		}
	}()
	var src interface{} = b
	if s := arr(op["pieces"]); s != nil {
		r := &pieces{b: b, eof: rig.Bool(op, "eof")}
		for _, x := range s {
			r.sizes = append(r.sizes, int(x.(float64)))
		}
		src = r
	}
	in := netdata.NewDataInputX(src)
	var out M
	switch rig.Str(op, "kind") {
	case "value":
		v, err := in.ReadValue()
		if err != nil {
			return M{"ok": false}
		}
		out = M{"ok": true, "v": descValue(v)}
		if m, ok := v.(*netdata.MapValue); ok && rig.Bool(op, "gets") {
			keys := []string{"no such key"}
			for k := range m.Table {
				keys = append(keys, k)
			}
			out["g"] = gets(m, keys)
		}
	case "pack":
		p, err := in.ReadPack()
		if err != nil {
			return M{"ok": false}
		}
		n, f := descPack(p)
		out = M{"ok": true, "p": n, "v": f}
		if m, ok := p.(*netdata.MapPack); ok && rig.Bool(op, "gets") {
			keys := []string{"no such key"}
			for k := range m.Table {
				keys = append(keys, k)
			}
			out["g"] = gets(m, keys)
		}
	case "object":
		t, err := in.ReadInt8()
		if err != nil || t != 80 {
			return M{"ok": false}
		}
		p, err := netdata.NewObjectPack().Read(in)
		if err != nil {
			return M{"ok": false}
		}
		n, f := descPack(p)
		out = M{"ok": true, "p": n, "v": f}
	case "fields":
		vs := []interface{}{}
		for _, t := range arr(op["layout"]) {
			q := arr(t)
			x, err := readField(in, q[0].(string), int(q[1].(float64)))
			if err != nil {
				return M{"ok": false}
			}
			vs = append(vs, x)
		}
		out = M{"ok": true, "v": vs}
	default:
		panic("kind")
	}
	if n := rig.Int(op, "tail"); n > 0 {
		t, err := in.Read(int32(n))
		if err != nil {
			out["tail"] = "error"
		} else {
			out["tail"] = hex.EncodeToString(t)
		}
	}
	return out
}

func codecOp(op M) (res M) {
	defer func() {
		if r := recover(); r != nil {
			res = M{"panic": fmt.Sprint(r)}
		}
	}()
	switch rig.Str(op, "op") {
	case "enc":
		o := netdata.NewDataOutputX(nil)
		switch rig.Str(op, "kind") {
		case "value":
			o.WriteValue(mkValue(op["v"].(map[string]interface{})))
		case "pack":
			o.WritePack(mkPack(rig.Str(op, "p"), arr(op["v"])))
		case "step":
			o.WriteStep(mkStep(rig.Str(op, "p"), arr(op["v"])))
		case "steps":
			var ss []netdata.Step
			for _, x := range arr(op["v"]) {
				q := x.(map[string]interface{})
				ss = append(ss, mkStep(rig.Str(q, "p"), arr(q["v"])))
			}
			return M{"b": hex.EncodeToString(netdata.StepsToBytes(ss))}
		case "fields":
			var buf bytes.Buffer
			if rig.Bool(op, "writer") {
				o = netdata.NewDataOutputX(&buf)
			}
			for _, x := range arr(op["v"]) {
				q := arr(x)
				writeField(o, q[0].(string), q[1])
			}
			if rig.Bool(op, "writer") {
				return M{"b": hex.EncodeToString(buf.Bytes()), "size": int(o.GetWriteSize())}
			}
		}
		return M{"b": hex.EncodeToString(o.Bytes()), "size": int(o.GetWriteSize())}
	case "dec":
		return decode(op, unhex(rig.Str(op, "b")))
	case "cuts":
		b := unhex(rig.Str(op, "b"))
		out := []M{}
		for _, x := range arr(op["ns"]) {
			n := int(x.(float64))
			r := decode(op, append([]byte{}, b[:n]...))
			if r["panic"] != nil {
				return r
			}
			if r["ok"] == true {
				r["n"] = n
				out = append(out, r)
			}
		}
		return M{"oks": out}
	}
	panic("op")
}

func codecCmd(req M) M {
	out := []M{}
	for _, x := range arr(req["ops"]) {
		out = append(out, codecOp(x.(map[string]interface{})))
	}
	return M{"r": out}
}
