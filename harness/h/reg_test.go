package h

import (
	"fmt"
	"os"
	"reflect"
	"testing"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet/code"
)

var regTypes = map[string]func(uint8) interface{}{
	"TalkToMe":   func(v uint8) interface{} { return code.TalkToMe(v) },
	"Status1":    func(v uint8) interface{} { return code.Status1(v) },
	"Status2":    func(v uint8) interface{} { return code.Status2(v) },
	"GoodInput":  func(v uint8) interface{} { return code.GoodInput(v) },
	"GoodOutput": func(v uint8) interface{} { return code.GoodOutput(v) },
	"PortType":   func(v uint8) interface{} { return code.PortType(v) },
	"SwMacro":    func(v uint8) interface{} { return code.SwMacro(v) },
	"SwRemote":   func(v uint8) interface{} { return code.SwRemote(v) },
}

var enumVals = map[string][]string{
	"PortAddr":  {"unknown", "front", "net", "unused"},
	"Indicator": {"unknown", "locate", "mute", "normal"},
	"Type":      {"DMX512", "MIDI", "Avab", "Colortran CMX", "ADB 62.5", "Art-Net"},
}

func TestRegisters(t *testing.T) {
	rec := NewRec(os.Getenv("VH_OUT"))
	defer rec.Close()
	for name, mk := range regTypes {
		for v := 0; v < 256; v++ {
			rv := reflect.ValueOf(mk(uint8(v)))
			rt := rv.Type()
			get, eget, set, eset := M{}, M{}, M{}, M{}
			for i := 0; i < rt.NumMethod(); i++ {
				m := rt.Method(i)
				fn := rv.Method(i)
				if m.Name == "String" || len(m.Name) < 1 {
					continue
				}
				ft := fn.Type()
				switch {
				case ft.NumIn() == 0 && ft.NumOut() == 1 && ft.Out(0).Kind() == reflect.Bool:
					get[m.Name] = fn.Call(nil)[0].Bool()
				case ft.NumIn() == 0 && ft.NumOut() == 1 && ft.Out(0).Kind() == reflect.String:
					eget[m.Name] = fn.Call(nil)[0].String()
				case ft.NumIn() == 1 && ft.NumOut() == 1 && ft.Out(0) == rt && ft.In(0).Kind() == reflect.Bool:
					set[m.Name[4:]] = []uint64{fn.Call([]reflect.Value{reflect.ValueOf(true)})[0].Uint(),
						fn.Call([]reflect.Value{reflect.ValueOf(false)})[0].Uint()}
				case ft.NumIn() == 1 && ft.NumOut() == 1 && ft.Out(0) == rt && ft.In(0).Kind() == reflect.String:
					l := []int{}
					for _, a := range enumVals[m.Name[4:]] {
						l = append(l, int(fn.Call([]reflect.Value{reflect.ValueOf(a)})[0].Uint()))
					}
					eset[m.Name[4:]] = l
				}
			}
			setI := M{}
			for k, x := range set {
				l := []int{}
				for _, y := range x.([]uint64) {
					l = append(l, int(y))
				}
				setI[k] = l
			}
			rec.Put(M{"ev": "reg", "reg": name, "v": v, "get": get, "eget": eget, "set": setI, "eset": eset,
				"str": fmt.Sprint(mk(uint8(v)))})
		}
	}
	var names []string
	var valid []bool
	for o := 0; o < 65536; o++ {
		names = append(names, code.OpCode(o).String())
		valid = append(valid, code.ValidOp(code.OpCode(o)))
	}
	rec.Put(M{"ev": "table", "table": "OpCode", "n": 65536, "names": names, "valid": valid})
	names, valid = nil, nil
	for o := 0; o < 256; o++ {
		names = append(names, code.StyleCode(o).String())
		valid = append(valid, code.ValidStyle(code.StyleCode(o)))
	}
	rec.Put(M{"ev": "table", "table": "StyleCode", "n": 256, "names": names, "valid": valid})
	names = nil
	for o := 0; o < 256; o++ {
		names = append(names, code.PriorityCode(o).String())
	}
	rec.Put(M{"ev": "table", "table": "PriorityCode", "n": 256, "names": names, "valid": []bool{}})
	names = nil
	for o := 0; o < 256; o++ {
		names = append(names, code.NodeReportCode(o).String())
	}
	rec.Put(M{"ev": "table", "table": "NodeReportCode", "n": 256, "names": names, "valid": []bool{}})
	for n := 0; n < 256; n++ {
		is, ts := []int{}, []string{}
		for s := 0; s < 256; s++ {
			a := artnet.Address{Net: uint8(n), SubUni: uint8(s)}
			is = append(is, a.Integer())
			ts = append(ts, a.String())
		}
		rec.Put(M{"ev": "addr", "net": n, "ints": is, "texts": ts})
	}
	rec.Put(M{"ev": "end"})
}
