package h

import (
	"bufio"
	"encoding/json"
	"io"
	"math/rand"
	"net"
	"os"
	"testing"
	"testing/synctest"
	"time"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
	"github.com/sirupsen/logrus"
)

func quietLogger() artnet.Logger {
	l := logrus.New()
	l.Out = io.Discard
	l.Level = logrus.PanicLevel
	return artnet.NewLogger(logrus.NewEntry(l))
}

func randString(r *rand.Rand, max int) []int {
	n := []int{0, r.Intn(max + 1), r.Intn(max + 1), max - 1, max}[r.Intn(5)]
	s := make([]int, n)
	for i := range s {
		s[i] = 1 + r.Intn(127)
	}
	return s
}

func randBytes(r *rand.Rand, n int) []int {
	s := make([]int, n)
	for i := range s {
		s[i] = r.Intn(256)
	}
	return s
}

// randConfig is a configuration with in 0..max ports per direction.
func randConfig(r *rand.Rand, max int) CfgJ {
	c := CfgJ{
		Oem: r.Intn(65536), Version: r.Intn(65536), Bios: r.Intn(256), Manufacturer: randString(r, 2),
		Style: r.Intn(7), Name: randString(r, 17), Description: randString(r, 63), Report: randBytes(r, r.Intn(65)),
		Mac: randBytes(r, 6), IP: randBytes(r, 4), BindIP: randBytes(r, 4), BindIndex: r.Intn(256), Port: packet.ArtNetPort,
		Status1: r.Intn(256), Status2: r.Intn(256), Base: r.Intn(128)*256 + r.Intn(16)*16,
		Inputs: []PortJ{}, Outputs: []PortJ{}, IP16: r.Intn(3) == 0,
	}
	some := func(x *int, max int) {
		if r.Intn(4) == 0 {
			*x = []int{0, 1, max, max &^ (max >> 1), r.Intn(8)}[r.Intn(5)]
		}
	}
	some(&c.Oem, 65535)
	some(&c.Version, 65535)
	some(&c.Bios, 255)
	some(&c.BindIndex, 255)
	some(&c.Status1, 255)
	some(&c.Status2, 255)
	for _, x := range []*[]int{&c.Mac, &c.IP, &c.BindIP, &c.Report} {
		switch r.Intn(8) {
		case 0:
			*x = []int{}
		case 1:
			for i := range *x {
				(*x)[i] = 0
			}
		case 2:
			for i := range *x {
				(*x)[i] = 255
			}
		}
	}
	if r.Intn(8) == 0 {
		c.BindIP = c.IP
	}
	if r.Intn(3) == 0 {
		c.Base += r.Intn(16) // the low nibble of a base address has no meaning
	}
	ni, no := r.Intn(max+1), r.Intn(max+1)
	pt := func() int { return r.Intn(6) + 64*r.Intn(4) } // direction bits are up to the user
	for i := 0; i < ni; i++ {
		c.Inputs = append(c.Inputs, PortJ{c.Base/16*16 + r.Intn(16), pt(), r.Intn(256)})
	}
	for i := 0; i < no; i++ {
		t := pt()
		if i < ni {
			t = c.Inputs[i].Type%64 + 64*r.Intn(4)
		}
		c.Outputs = append(c.Outputs, PortJ{c.Base/16*16 + r.Intn(16), t, r.Intn(256)})
	}
	return c
}

func announce(c CfgJ) (m M) {
	m = M{"ev": "ann", "c": c, "panic": false, "ok": false, "b": []int{}, "r": CfgJ{}}
	defer func() {
		if e := recover(); e != nil {
			m["panic"] = true
		}
	}()
	p := artnet.ArtPollReplyFromConfig(c.Config())
	b, err := p.MarshalBinary()
	if err != nil {
		return
	}
	m["b"] = ints(b)
	q, err := packet.Unmarshal(b)
	if err != nil {
		return
	}
	rp, ok := q.(*packet.ArtPollReplyPacket)
	if !ok {
		return
	}
	m["ok"] = true
	m["r"] = cfgDump(artnet.ConfigFromArtPollReply(*rp))
	return
}

func conf(b []byte) (m M) {
	m = M{"ev": "conf", "b": ints(b), "panic": false, "r": CfgJ{}}
	defer func() {
		if e := recover(); e != nil {
			m["panic"] = true
		}
	}()
	q, err := packet.Unmarshal(b)
	if err != nil {
		return nil
	}
	m["r"] = cfgDump(artnet.ConfigFromArtPollReply(*q.(*packet.ArtPollReplyPacket)))
	return
}

// startNode starts a real node with the configuration and polls it once.
func startNode(t *testing.T, c CfgJ) (m M) {
	m = M{"ev": "start", "c": c, "panic": false, "started": false, "opened": 0, "replies": 0, "b": []int{}}
	synctest.Test(t, func(t *testing.T) {
		opened, replies := 0, 0
		var reply []byte
		vn := &VNet{
			listen: func(string, net.UDPAddr, bool) { opened++ },
			closed: func(*Ep) {},
			tx:     func(ep *Ep, b []byte, to net.UDPAddr, ok bool) { replies++; reply = append([]byte(nil), b...) },
		}
		net.VerifListen = vn.Listen
		n := artnet.NewNode("x", code.StyleCode(c.Style), bs(c.IP), quietLogger())
		n.Config = c.Config()
		func() {
			defer func() {
				if e := recover(); e != nil {
					m["panic"] = true
				}
			}()
			m["started"] = n.Start() == nil
		}()
		if m["started"].(bool) {
			poll := []byte("Art-Net\x00\x00\x20\x00\x0e\x02\x00")
			if e := vn.current(); e != nil {
				e.in <- item{b: poll, from: net.UDPAddr{IP: net.IPv4(10, 9, 8, 7), Port: 6454}}
			}
			synctest.Wait()
			time.Sleep(time.Second)
			synctest.Wait()
			n.Stop()
			synctest.Wait()
		}
		m["opened"] = opened
		m["replies"] = replies
		m["b"] = ints(reply)
	})
	return
}

func TestAnnounce(t *testing.T) {
	rec := NewRec(os.Getenv("VH_OUT"))
	defer rec.Close()
	r := rand.New(rand.NewSource(int64(envInt("VH_SEED", 1))))
	n := envInt("VH_N", 100)
	if f := os.Getenv("VH_CASES"); f != "" {
		in, err := os.Open(f)
		if err != nil {
			t.Fatal(err)
		}
		sc := bufio.NewScanner(in)
		sc.Buffer(nil, 1<<24)
		for sc.Scan() {
			var c CfgJ
			if err := json.Unmarshal(sc.Bytes(), &c); err != nil {
				t.Fatal(err)
			}
			if os.Getenv("VH_WHAT") != "start" && len(c.Inputs) <= 4 && len(c.Outputs) <= 4 {
				rec.Put(announce(c))
			}
			if os.Getenv("VH_WHAT") != "ann" {
				rec.Put(startNode(t, c))
				rec.Flush()
			}
		}
	}
	for i := 0; i < n; i++ {
		if os.Getenv("VH_WHAT") != "start" {
			rec.Put(announce(randConfig(r, 4)))
			b := wellFormed("ArtPollReplyPacket", r)
			for _, z := range [][2]int{{24, 26}, {26, 44}, {44, 108}} { // ASCII names
				for j := z[0]; j < z[1]; j++ {
					b[j] &= 0x7f
				}
			}
			if r.Intn(3) != 0 {
				b[172], b[173] = 0, byte(r.Intn(7))
			}
			if m := conf(b); m != nil {
				rec.Put(m)
			}
		}
		if os.Getenv("VH_WHAT") != "ann" {
			c := randConfig(r, 6)
			if r.Intn(3) == 0 { // any combination of protocols
				for j := range c.Outputs {
					c.Outputs[j].Type = r.Intn(6)
				}
			}
			if len(c.Outputs) > 0 && r.Intn(3) == 0 { // one port off
				j := r.Intn(len(c.Outputs))
				c.Outputs[j].Type = c.Outputs[j].Type&^63 | r.Intn(6)
			}
			rec.Put(startNode(t, c))
			rec.Flush()
		}
	}
	rec.Put(M{"ev": "end"})
}
