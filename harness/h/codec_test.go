package h

import (
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"github.com/jsimonetti/go-artnet/packet"
)

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

var artID = []byte("Art-Net\x00")

var sizes = map[string]int{
	"ArtPollPacket": 14, "ArtPollReplyPacket": 239, "ArtDiagDataPacket": 530, "ArtCommandPacket": 528,
	"ArtDMXPacket": 530, "ArtNzsPacket": 530, "ArtSyncPacket": 14, "ArtAddressPacket": 107,
	"ArtTimeCodePacket": 19, "ArtTriggerPacket": 530, "ArtIPProgPacket": 34, "ArtIPProgReplyPacket": 34,
}

// wellFormed builds a datagram of the type with random payload; only a
// stimulus, the specification decides what it is worth.
func wellFormed(ty string, r *rand.Rand) []byte {
	b := make([]byte, sizes[ty])
	r.Read(b)
	switch r.Intn(4) {
	case 0: // sparse
		for i := range b {
			if r.Intn(4) != 0 {
				b[i] = 0
			}
		}
	}
	copy(b, artID)
	b[8], b[9] = byte(opOf[ty]), byte(opOf[ty]>>8)
	if ty != "ArtPollReplyPacket" {
		b[10], b[11] = 0, byte(14+r.Intn(3))
		if r.Intn(3) == 0 {
			b[10] = []byte{1, 14, 255, byte(r.Intn(256))}[r.Intn(4)]
		}
	}
	switch ty {
	case "ArtDMXPacket":
		l := 2 + 2*r.Intn(256)
		if r.Intn(3) == 0 {
			l = 512
		}
		b[16], b[17] = byte(l>>8), byte(l)
		b = b[:18+l]
	case "ArtPollReplyPacket":
		b[14], b[15] = 0x36, 0x19
		if r.Intn(4) == 0 {
			b[14], b[15] = 0x19, 0x36
		}
		b[200] = byte(r.Intn(7))
	case "ArtCommandPacket":
		b[12], b[13] = 255, 255
	}
	return b
}

// parse runs one of the two parsers on (a private copy of) b.
func parse(via string, b []byte, into packet.ArtNetPacket) (p packet.ArtNetPacket, ok, panicked bool) {
	in := append([]byte(nil), b...)
	defer func() {
		for i := range in {
			in[i] ^= 0xa5 // the caller may reuse its buffer
		}
		if e := recover(); e != nil {
			p, ok, panicked = nil, false, true
		}
	}()
	if via == "Unmarshal" {
		q, err := packet.Unmarshal(in)
		return q, err == nil, false
	}
	if into == nil {
		into = packetTypes[via]()
	}
	err := into.UnmarshalBinary(in)
	return into, err == nil, false
}

func parseEvent(rec *Rec, via string, b []byte, into packet.ArtNetPacket) {
	p, ok, pn := parse(via, b, into)
	m := M{"ev": "parse", "via": via, "b": ints(b), "ok": ok, "panic": pn, "dirty": into != nil, "type": "", "f": M{}}
	if ok {
		m["type"] = typeName(p)
		if p != nil {
			m["f"] = dump(p)
			m["op"] = int(p.GetOpCode())
		}
	}
	rec.Put(m)
}

func random(r *rand.Rand) func(int) uint64 {
	return func(bits int) uint64 {
		switch r.Intn(6) {
		case 0:
			return 0
		case 1:
			return 1<<bits - 1
		case 2:
			if bits == 16 {
				return []uint64{1, 2, 3, 510, 511, 512, 513, 255, 256, 6454, 0x3619, 0x8000}[r.Intn(12)]
			}
		}
		return r.Uint64() & (1<<bits - 1)
	}
}

func TestCodec(t *testing.T) {
	rec := NewRec(os.Getenv("VH_OUT"))
	defer rec.Close()
	r := rand.New(rand.NewSource(int64(envInt("VH_SEED", 1))))
	n := envInt("VH_N", 20)
	full := os.Getenv("VH_FULL") != ""
	for _, w := range strings.Split(os.Getenv("VH_WHAT"), ",") {
		switch w {
		case "parse":
			codecParse(rec, r, n)
		case "sweep":
			codecSweep(rec, r, full)
		case "words":
			codecWords(rec, r, full, envInt("VH_SHARD", 0), envInt("VH_SHARDS", 1))
		case "marshal":
			codecMarshal(rec, r, n)
		case "history":
			codecHistory(rec, r, n)
		}
	}
	rec.Put(M{"ev": "end"})
}

// header presets what every packet starts with, as far as the type has such fields.
func header(p packet.ArtNetPacket, r *rand.Rand) {
	v := reflect.ValueOf(p).Elem()
	if f := v.FieldByName("ID"); f.IsValid() && f.Kind() == reflect.Array && f.Len() == 8 {
		for i := range artID {
			f.Index(i).SetUint(uint64(artID[i]))
		}
	}
	if f := v.FieldByName("OpCode"); f.IsValid() && f.Kind() == reflect.Uint16 {
		o := opOf[typeName(p)]
		if r.Intn(2) == 0 {
			o = o<<8&0xff00 | o>>8
		}
		f.SetUint(uint64(o))
	}
	if f := v.FieldByName("Version"); f.IsValid() && f.Kind() == reflect.Array && f.Len() == 2 {
		f.Index(0).SetUint(0)
		f.Index(1).SetUint(14)
	}
}

// dirty gives a packet that has been used before.
func dirty(via string, r *rand.Rand) packet.ArtNetPacket {
	p := packetTypes[via]()
	fill(p, random(r))
	if r.Intn(2) == 0 {
		header(p, r)
	}
	for r.Intn(5) != 0 {
		switch r.Intn(5) {
		case 0:
			marshal(p)
		case 1, 2:
			parse(via, wellFormed(via, r), p)
		case 3:
			parse(via, damaged(via, r), p)
		case 4:
			header(p, r)
		}
	}
	return p
}

func damaged(via string, r *rand.Rand) []byte {
	b := wellFormed(via, r)
	switch r.Intn(4) {
	case 0:
		b = b[:r.Intn(len(b))]
	case 1:
		b = b[:12]
	case 2:
		b[r.Intn(20)%len(b)] ^= 1 << r.Intn(8)
	case 3:
		b = wellFormed(typeNames[r.Intn(len(typeNames))], r)
	}
	return b
}

func codecParse(rec *Rec, r *rand.Rand, n int) {
	for k := 0; k < n; k++ {
		for _, ty := range typeNames {
			b := wellFormed(ty, r)
			switch r.Intn(8) {
			case 0: // trailing bytes
				x := make([]byte, r.Intn(40))
				r.Read(x)
				b = append(b, x...)
			case 1: // truncated
				b = b[:r.Intn(len(b)+1)]
			case 2, 3: // mutated near the front
				for j := 0; j < 1+r.Intn(2); j++ {
					b[r.Intn(min(len(b), 24))] = byte(r.Intn(256))
				}
			case 4: // one bit
				b[r.Intn(len(b))] ^= 1 << r.Intn(8)
			case 5: // two bytes of special value
				o := 8 + r.Intn(min(len(b), 24)-9)
				v := [][2]byte{{0, 0}, {255, 255}, {0, 1}, {1, 0}, {b[o+1], b[o]}, {b[o] ^ 255, b[o+1] ^ 255}}[r.Intn(6)]
				b[o], b[o+1] = v[0], v[1]
			case 6:
				if k%7 == 3 { // long tail
					x := make([]byte, []int{600, 1500, 2100, 4100}[r.Intn(4)])
					r.Read(x)
					b = append(b, x...)
				}
			}
			parseEvent(rec, "Unmarshal", b, nil)
			parseEvent(rec, ty, b, nil)
			parseEvent(rec, ty, b, dirty(ty, r))
			other := typeNames[r.Intn(len(typeNames))]
			parseEvent(rec, other, b, nil)
		}
		b := make([]byte, r.Intn(64))
		r.Read(b)
		parseEvent(rec, "Unmarshal", b, nil)
		parseEvent(rec, typeNames[r.Intn(len(typeNames))], b, nil)
		// ArtDmx around its length rules
		b = wellFormed("ArtDMXPacket", r)
		b = append(b, make([]byte, 600)...)
		l := r.Intn(600)
		if r.Intn(4) == 0 {
			l = r.Intn(65536)
		}
		b[16], b[17] = byte(l>>8), byte(l)
		if l < 580 {
			b = b[:max(0, 18+l+r.Intn(5)-2)]
		}
		parseEvent(rec, "Unmarshal", b, nil)
		parseEvent(rec, "ArtDMXPacket", b, dirty("ArtDMXPacket", r))
	}
}

func codecSweep(rec *Rec, r *rand.Rand, full bool) {
	// every opcode, on a body long enough for every type
	for _, ver := range []byte{14, 13} {
		b := make([]byte, 600)
		copy(b, artID)
		b[11] = ver
		b[12], b[13] = 255, 255 // ESTA code of ArtCommand
		b[14], b[15] = 0x36, 0x19
		b[17] = 2 // ArtDmx length
		acc, types, pn := []int{}, []string{}, []int{}
		for o := 0; o < 65536; o++ {
			b[8], b[9] = byte(o), byte(o>>8)
			p, ok, panicked := parse("Unmarshal", b, nil)
			if ok {
				acc = append(acc, o)
				types = append(types, typeName(p))
			}
			if panicked {
				pn = append(pn, o)
			}
		}
		rec.Put(M{"ev": "opsweep", "via": "Unmarshal", "b": ints(b[:24]), "b201": int(b[200]), "n": len(b), "acc": acc, "types": types, "panic": pn})
	}
	again := ""
	for _, ty := range typeNames {
		for _, via := range []string{"Unmarshal", ty, ty} {
			// every prefix of a well-formed packet with trailing bytes
			b := wellFormed(ty, r)
			b = append(b, make([]byte, 8)...)
			acc, pn := []int{}, []int{}
			var into packet.ArtNetPacket // the second time always the same receiver
			if via == again {
				into = dirty(via, r)
			}
			again = via
			for k := 0; k <= len(b); k++ {
				_, ok, panicked := parse(via, b[:k], into)
				if ok {
					acc = append(acc, k)
				}
				if panicked {
					pn = append(pn, k)
				}
			}
			rec.Put(M{"ev": "lensweep", "via": via, "b": ints(b), "acc": acc, "panic": pn})
			// every value of single bytes
			offs := []int{}
			for o := 0; o < len(b)-8; o++ {
				if full || o < 18 || o == 200 || r.Intn(60) == 0 {
					offs = append(offs, o)
				}
			}
			for _, o := range offs {
				c := append([]byte(nil), b...)
				acc, pn := []int{}, []int{}
				for v := 0; v < 256; v++ {
					c[o] = byte(v)
					_, ok, panicked := parse(via, c, into)
					if ok {
						acc = append(acc, v)
					}
					if panicked {
						pn = append(pn, v)
					}
				}
				rec.Put(M{"ev": "bytesweep", "via": via, "b": ints(b[:min(len(b), 205)]), "n": len(b), "off": o, "acc": acc, "panic": pn})
			}
		}
	}
	// ArtDmx: every length field, for several datagram lengths
	ns := []int{18, 19, 20, 21, 22, 529, 530, 531, 600}
	if full {
		for k := 0; k < 60; k++ {
			ns = append(ns, r.Intn(700))
		}
	} else {
		ns = append(ns, r.Intn(600), r.Intn(600))
	}
	for _, via := range []string{"Unmarshal", "ArtDMXPacket"} {
		for _, n := range ns {
			b := make([]byte, max(n, 18))
			copy(b, artID)
			b[8], b[9], b[11] = 0x00, 0x50, 14
			acc, pn := []int{}, []int{}
			for l := 0; l < 65536; l++ {
				b[16], b[17] = byte(l>>8), byte(l)
				_, ok, panicked := parse(via, b[:n], nil)
				if ok {
					acc = append(acc, l)
				}
				if panicked {
					pn = append(pn, l)
				}
			}
			rec.Put(M{"ev": "dmxsweep", "via": via, "b": ints(b[:18]), "n": n, "acc": acc, "panic": pn})
		}
	}
}

// codecWords tries every value of two neighbouring bytes.
func codecWords(rec *Rec, r *rand.Rand, full bool, shard, shards int) {
	k := 0
	for i, ty := range typeNames {
		for _, off := range []int{10, 12, 14, 16, 172, 199, 200} {
			if off > 16 && ty != "ArtPollReplyPacket" {
				continue
			}
			k++
			if k%shards != shard {
				continue
			}
			vias := []string{"Unmarshal", ty}
			if !full {
				vias = vias[(k+i+r.Intn(2))%2:][:1]
			}
			for _, via := range vias {
				b := wellFormed(ty, r)
				b = append(b, 0, 0, 0, 0)
				yes, no, pn := []int{}, []int{}, []int{}
				for v := 0; v < 65536; v++ {
					b[off], b[off+1] = byte(v>>8), byte(v)
					_, ok, panicked := parse(via, b, nil)
					if ok {
						yes = append(yes, v)
					} else {
						no = append(no, v)
					}
					if panicked {
						pn = append(pn, v)
					}
				}
				neg := len(no) < len(yes)
				if neg {
					yes = no
				}
				rec.Put(M{"ev": "wordsweep", "via": via, "b": ints(b[:min(len(b), 205)]), "n": len(b), "off": off, "neg": neg, "acc": yes, "panic": pn})
			}
		}
	}
}

func marshal(p packet.ArtNetPacket) (b []byte, ok, panicked bool) {
	defer func() {
		if e := recover(); e != nil {
			b, ok, panicked = nil, false, true
		}
	}()
	b, err := p.MarshalBinary()
	return b, err == nil, false
}

func codecMarshal(rec *Rec, r *rand.Rand, n int) {
	for k := 0; k < n; k++ {
		for _, ty := range typeNames {
			p := packetTypes[ty]()
			if k > 0 {
				nx := random(r)
				if k%3 == 1 {
					c := uint64(0)
					nx = func(bits int) uint64 { c++; return (c*37 + uint64(k)) & (1<<bits - 1) } // all distinct
				}
				fill(p, nx)
			}
			if rp, ok := p.(*packet.ArtPollReplyPacket); ok && k%4 != 3 {
				rp.Style %= 7
			}
			in := dump(p)
			b, ok, pn := marshal(p)
			m := M{"ev": "marshal", "type": ty, "in": in, "ok": ok, "panic": pn, "b": ints(b), "pok": false, "ptype": "", "pf": M{}}
			if ok {
				q, pok, ppn := parse("Unmarshal", b, nil)
				m["pok"] = pok
				if ppn {
					m["panic"] = true
				}
				if pok {
					m["ptype"] = typeName(q)
					if q != nil {
						m["pf"] = dump(q)
					}
				}
			}
			rec.Put(m)
		}
	}
}

// codecHistory interleaves marshalling and parsing of a few objects.
func codecHistory(rec *Rec, r *rand.Rand, n int) {
	for k := 0; k < n; k++ {
		ty := typeNames[(k*5)%len(typeNames)]
		objs := []packet.ArtNetPacket{}
		tys := []string{}
		names := []string{}
		put := func(i int, ev string, extra M) {
			m := M{"ev": ev, "o": fmt.Sprintf("%d.%d", k, i), "type": typeName(objs[i]), "f": dump(objs[i]), "op": int(objs[i].GetOpCode()), "b": []int{}, "ok": true, "panic": false}
			for a, b := range extra {
				m[a] = b
			}
			rec.Put(m)
		}
		for i := 0; i < 3; i++ {
			t := ty
			if i == 2 {
				t = typeNames[r.Intn(len(typeNames))]
			}
			p := packetTypes[t]()
			if i > 0 || r.Intn(2) == 0 {
				fill(p, random(r))
			}
			if rp, ok := p.(*packet.ArtPollReplyPacket); ok && r.Intn(2) == 0 {
				rp.Style %= 7
			}
			objs = append(objs, p)
			tys = append(tys, t)
			names = append(names, t)
			put(i, "hnew", nil)
		}
		var last []byte
		var lastT string
		type kept struct{ live, was []byte }
		var keeps []kept
		for s := 0; s < 8; s++ {
			i := r.Intn(len(objs))
			switch r.Intn(4) {
			case 0, 1:
				b, ok, pn := marshal(objs[i])
				keep := append([]byte(nil), b...)
				if r.Intn(2) == 0 {
					keeps = append(keeps, kept{b, keep}) // must stay as it is
				} else {
					// the caller may scribble over what it got
					for j := range b {
						b[j] ^= 0x5a
					}
				}
				put(i, "hmarshal", M{"b": ints(keep), "ok": ok, "panic": pn})
				if ok {
					last, lastT = keep, tys[i]
				}
			case 2: // parse into an existing object
				b := wellFormed(tys[i], r)
				if last != nil && lastT == tys[i] && r.Intn(2) == 0 {
					b = last
				}
				if r.Intn(5) == 0 {
					b = append(b, 1, 2, 3)
				}
				if r.Intn(5) == 0 {
					b = damaged(tys[i], r)
				}
				_, ok, pn := parse(tys[i], b, objs[i])
				put(i, "hparse", M{"b": ints(b), "ok": ok, "panic": pn})
			case 3: // parse a new object
				b := wellFormed(tys[i], r)
				p, ok, pn := parse("Unmarshal", b, nil)
				if ok && p != nil {
					objs[i] = p
					put(i, "hparse", M{"b": ints(b), "ok": ok, "panic": pn})
				}
			}
		}
		for _, x := range keeps {
			rec.Put(M{"ev": "hkept", "was": ints(x.was), "now": ints(x.live)})
		}
		for i := range objs {
			put(i, "hlook", nil)
		}
	}
}
