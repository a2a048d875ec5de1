// Package h drives the real go-artnet code and records what it does.
package h

import (
	"bufio"
	"encoding/json"
	"os"
	"reflect"
	"sync"

	"github.com/jsimonetti/go-artnet/packet"
)

// M is one trace line.
type M map[string]interface{}

// Rec is an ndjson writer.
type Rec struct {
	mu sync.Mutex
	f  *os.File
	w  *bufio.Writer
	N  int
}

func NewRec(path string) *Rec {
	f, err := os.OpenFile(path, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return &Rec{f: f, w: bufio.NewWriterSize(f, 1<<20)}
}

func (r *Rec) Put(m M) {
	b, err := json.Marshal(m)
	if err != nil {
		panic("harness: " + err.Error())
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.N++
	r.w.Write(b)
	r.w.WriteByte('\n')
}

func (r *Rec) Flush() {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.w.Flush()
}

func (r *Rec) Close() { r.Flush(); r.f.Close() }

// ints turns bytes into a JSON list of numbers.
func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, v := range b {
		r[i] = int(v)
	}
	return r
}

// packetTypes are the implemented packet types by name.
var packetTypes = map[string]func() packet.ArtNetPacket{
	"ArtPollPacket":        func() packet.ArtNetPacket { return packet.NewArtPollPacket() },
	"ArtPollReplyPacket":   func() packet.ArtNetPacket { return packet.NewArtPollReplyPacket() },
	"ArtDiagDataPacket":    func() packet.ArtNetPacket { return packet.NewArtDiagDataPacket() },
	"ArtCommandPacket":     func() packet.ArtNetPacket { return packet.NewArtCommandPacket() },
	"ArtDMXPacket":         func() packet.ArtNetPacket { return packet.NewArtDMXPacket() },
	"ArtNzsPacket":         func() packet.ArtNetPacket { return packet.NewArtNzsPacket() },
	"ArtSyncPacket":        func() packet.ArtNetPacket { return packet.NewArtSyncPacket() },
	"ArtAddressPacket":     func() packet.ArtNetPacket { return packet.NewArtAddressPacket() },
	"ArtTimeCodePacket":    func() packet.ArtNetPacket { return packet.NewArtTimeCodePacket() },
	"ArtTriggerPacket":     func() packet.ArtNetPacket { return packet.NewArtTriggerPacket() },
	"ArtIPProgPacket":      func() packet.ArtNetPacket { return packet.NewArtIPProgPacket() },
	"ArtIPProgReplyPacket": func() packet.ArtNetPacket { return packet.NewArtIPProgReplyPacket() },
}

var typeNames = []string{
	"ArtPollPacket", "ArtPollReplyPacket", "ArtDiagDataPacket", "ArtCommandPacket",
	"ArtDMXPacket", "ArtNzsPacket", "ArtSyncPacket", "ArtAddressPacket",
	"ArtTimeCodePacket", "ArtTriggerPacket", "ArtIPProgPacket", "ArtIPProgReplyPacket",
}

var opOf = map[string]int{
	"ArtPollPacket": 0x2000, "ArtPollReplyPacket": 0x2100, "ArtDiagDataPacket": 0x2300,
	"ArtCommandPacket": 0x2400, "ArtDMXPacket": 0x5000, "ArtNzsPacket": 0x5100,
	"ArtSyncPacket": 0x5200, "ArtAddressPacket": 0x6000, "ArtTimeCodePacket": 0x9700,
	"ArtTriggerPacket": 0x9900, "ArtIPProgPacket": 0xf800, "ArtIPProgReplyPacket": 0xf900,
}

// typeName is the Go type of a packet.
func typeName(p packet.ArtNetPacket) string {
	if p == nil || reflect.ValueOf(p).IsNil() {
		return "nil"
	}
	return reflect.TypeOf(p).Elem().Name()
}

// dump reads the fields of a packet: field name -> list of numbers.
func dump(p packet.ArtNetPacket) map[string][]int {
	out := map[string][]int{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		t := v.Type()
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.Name == "_" {
				continue
			}
			if f.Anonymous && f.Type.Kind() == reflect.Struct {
				walk(v.Field(i))
				continue
			}
			if !f.IsExported() {
				continue
			}
			fv := v.Field(i)
			switch fv.Kind() {
			case reflect.Array, reflect.Slice:
				l := []int{}
				for j := 0; j < fv.Len(); j++ {
					l = append(l, int(fv.Index(j).Uint()))
				}
				out[f.Name] = l
			case reflect.Uint8, reflect.Uint16:
				out[f.Name] = []int{int(fv.Uint())}
			}
		}
	}
	walk(reflect.ValueOf(p).Elem())
	return out
}

// fill sets every exported field of p with values from next(bits).
func fill(p packet.ArtNetPacket, next func(bits int) uint64) {
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		t := v.Type()
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.Name == "_" || (!f.IsExported() && !f.Anonymous) {
				continue
			}
			fv := v.Field(i)
			switch fv.Kind() {
			case reflect.Struct:
				walk(fv)
			case reflect.Array:
				for j := 0; j < fv.Len(); j++ {
					fv.Index(j).SetUint(next(8))
				}
			case reflect.Uint8:
				fv.SetUint(next(8))
			case reflect.Uint16:
				fv.SetUint(next(16))
			}
		}
	}
	walk(reflect.ValueOf(p).Elem())
}
