#!/usr/bin/env python3
"""Sources of the planted bugs of seeded/ whose demonstrations run over the loopback network: seeds.py [NAME ...] writes them."""
import subprocess, sys
COMMON = '''
package artnet_test

import (
	"io"
	"net"
	"testing"
	"time"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
	"github.com/sirupsen/logrus"
)

var _ = code.OpDMX

func quiet() artnet.Logger {
	l := logrus.New()
	l.Out = io.Discard
	return artnet.NewLogger(logrus.NewEntry(l))
}

var peer = net.UDPAddr{IP: net.IPv4(127, 0, 0, 9), Port: 6454} // stands for the broadcast address
var dut = net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 6454}

func controller(opts ...artnet.Option) *artnet.Controller {
	o := append([]artnet.Option{artnet.ListenIP(dut.IP), artnet.BroadcastAddr(peer)}, opts...)
	return artnet.NewController("demo", dut.IP.To4(), quiet(), o...)
}

func started(t *testing.T, opts ...artnet.Option) *artnet.Controller {
	c := controller(opts...)
	if err := c.Start(); err != nil {
		t.Fatal(err)
	}
	return c
}

func node(t *testing.T, opts ...artnet.NodeOption) *artnet.Node {
	o := append([]artnet.NodeOption{artnet.NodeListenIP(dut.IP), artnet.NodeBroadcastAddress(peer)}, opts...)
	return artnet.NewNode("demo", code.StNode, dut.IP.To4(), quiet(), o...)
}

func host(t *testing.T, last byte) *net.UDPConn {
	c, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IPv4(127, 0, 0, last), Port: 6454})
	if err != nil {
		t.Fatal(err)
	}
	c.SetReadBuffer(1 << 22)
	return c
}

// announce sends the ArtPollReply of a node with these output and input universes.
func announce(c *net.UDPConn, outs, ins []byte, mod ...func(*packet.ArtPollReplyPacket)) {
	p := &packet.ArtPollReplyPacket{Style: code.StNode}
	copy(p.IPAddress[:], c.LocalAddr().(*net.UDPAddr).IP.To4())
	for i, u := range outs {
		p.PortTypes[i] = p.PortTypes[i].WithOutput(true)
		p.SwOut[i] = u
	}
	for i, u := range ins {
		p.PortTypes[i] = p.PortTypes[i].WithInput(true)
		p.SwIn[i] = u
	}
	p.NumPorts = uint16(len(outs))
	if len(ins) > len(outs) {
		p.NumPorts = uint16(len(ins))
	}
	for _, m := range mod {
		m(p)
	}
	b, _ := p.MarshalBinary()
	c.WriteToUDP(b, &dut)
}

func uni(u byte) artnet.Address { return artnet.Address{SubUni: u} }

func frame(v byte) (f [512]byte) {
	for i := range f {
		f[i] = v
	}
	return
}

type got struct {
	p packet.ArtNetPacket
	t time.Time
}

// collect reads datagrams for a while.
func collect(c *net.UDPConn, d time.Duration) (r []got) {
	b := make([]byte, 4096)
	end := time.Now().Add(d)
	c.SetReadDeadline(end)
	for time.Now().Before(end) {
		n, _, err := c.ReadFromUDP(b)
		if err != nil {
			break
		}
		if p, err := packet.Unmarshal(b[:n]); err == nil {
			r = append(r, got{p, time.Now()})
		}
	}
	return
}

func dmx(gs []got, u int) (r []*packet.ArtDMXPacket) {
	for _, g := range gs {
		if p, ok := g.p.(*packet.ArtDMXPacket); ok && (u < 0 || int(p.SubUni) == u) {
			r = append(r, p)
		}
	}
	return
}
'''
S = {}


def s(name, prop, needs, breaks, edits, demo):
    S[name] = (prop, dict(edits=edits, needs=needs, breaks=breaks, demo=COMMON + demo))


C, N, O = "controller.go", "node.go", "options.go"

s("s01-shared-dark", "C01", "a node that announces two or more output ports when it is first seen, and a write to one of them",
  "all addresses of a newly added node share one DMX buffer, so data given for one address appears on the others",
  [(C, '''	buf := make(map[Address]*dmxBuffer)
	for _, port := range cfg.OutputPorts {
		buf[port.Address] = &dmxBuffer{}
	}
''', '''	buf := make(map[Address]*dmxBuffer)
	dark := &dmxBuffer{}
	for _, port := range cfg.OutputPorts {
		buf[port.Address] = dark
	}
''')], '''
func TestDemo(t *testing.T) {
	h := host(t, 2)
	defer h.Close()
	c := started(t)
	defer c.Stop()
	announce(h, []byte{1, 2}, nil)
	time.Sleep(100 * time.Millisecond)
	for i := 0; i < 20; i++ {
		c.SendDMXToAddress(frame(7), uni(1))
		for _, p := range dmx(collect(h, 50*time.Millisecond), 2) {
			if p.Data != [512]byte{} {
				t.Fatal("data for universe 1 on universe 2")
			}
		}
	}
}
''')

s("s01-blackout-on-change", "C01", "a node whose re-announcement keeps an address but lists its ports in another order, after a write to that address",
  "the frame of the address is replaced by zeros: datagrams no longer carry the latest frame",
  [(C, '''			c.Nodes[i].Node = cfg
			c.Nodes[i].LastSeen = time.Now()
''', '''			if len(cfg.OutputPorts) > 0 && len(c.Nodes[i].Node.OutputPorts) > 0 && cfg.OutputPorts[0].Address != c.Nodes[i].Node.OutputPorts[0].Address {
				// the ports were reassigned
				c.Nodes[i].DMXBuffer = make(map[Address]*dmxBuffer)
			}
			c.Nodes[i].Node = cfg
			c.Nodes[i].LastSeen = time.Now()
''')], '''
func TestDemo(t *testing.T) {
	h := host(t, 2)
	defer h.Close()
	c := started(t)
	defer c.Stop()
	announce(h, []byte{1, 2}, nil)
	time.Sleep(100 * time.Millisecond)
	c.SendDMXToAddress(frame(7), uni(1))
	collect(h, 100*time.Millisecond)
	announce(h, []byte{2, 1}, nil)
	collect(h, 50*time.Millisecond)
	ps := dmx(collect(h, 600*time.Millisecond), 1)
	if len(ps) == 0 {
		t.Fatal("nothing received")
	}
	for _, p := range ps {
		if p.Data != frame(7) {
			t.Fatal("frame lost")
		}
	}
}
''')

s("s02-same-frame-unmarks", "C02", "the same frame written twice to an address within one frame interval",
  "the second call clears the mark of the first, and the new frame leaves only with the next keep-alive, up to 250 ms late",
  [(C, '''	buf.Data = dmx
	buf.Stale = true
''', '''	// do not send what the node already shows
	buf.Stale = buf.Data != dmx
	buf.Data = dmx
''')], '''
func TestDemo(t *testing.T) {
	h := host(t, 2)
	defer h.Close()
	c := started(t, artnet.MaxFPS(50))
	defer c.Stop()
	announce(h, []byte{1}, nil)
	time.Sleep(100 * time.Millisecond)
	late := 0
	for i := byte(1); i <= 12; i++ {
		c.SendDMXToAddress(frame(i), uni(1))
		c.SendDMXToAddress(frame(i), uni(1))
		seen := false
		for _, p := range dmx(collect(h, 65*time.Millisecond), 1) {
			seen = seen || p.Data == frame(i)
		}
		if !seen {
			late++
		}
	}
	if late > 4 {
		t.Fatalf("%d of 12 frames late", late)
	}
}
''')

s("s02-eight-per-tick", "C02", "more than eight addresses written within one frame interval",
  "only eight updates leave per pass of the engine; a map iteration may starve the others for several intervals",
  [(C, '''			for address, node := range c.OutputAddress {
				if node.DMXBuffer[address] == nil {
''', '''			burst := 0
			for address, node := range c.OutputAddress {
				// the send queue holds ten packets, leave room for poll replies
				if burst >= 8 {
					break
				}
				if node.DMXBuffer[address] == nil {
'''), (C, '''		node.DMXBuffer[address].LastUpdate = now
		node.DMXBuffer[address].Stale = false
''', '''		node.DMXBuffer[address].LastUpdate = now
		node.DMXBuffer[address].Stale = false
		burst++
'''), (C, '''	forceUpdate := 250 * time.Millisecond
''', '''	forceUpdate := 250 * time.Millisecond
	burst := 0
'''), (C, '''			burst := 0
			for address, node := range c.OutputAddress {
''', '''			burst = 0
			for address, node := range c.OutputAddress {
''')], '''
func TestDemo(t *testing.T) {
	c := started(t, artnet.MaxFPS(4))
	defer c.Stop()
	var hs []*net.UDPConn
	for i := byte(0); i < 4; i++ {
		h := host(t, 2+i)
		defer h.Close()
		hs = append(hs, h)
		announce(h, []byte{0, 1, 2, 3}, nil, func(p *packet.ArtPollReplyPacket) { p.SubSwitch = i })
	}
	time.Sleep(1200 * time.Millisecond)
	for i := range hs {
		for u := byte(0); u < 4; u++ {
			c.SendDMXToAddress(frame(9), uni(byte(i)*16+u))
		}
	}
	time.Sleep(400 * time.Millisecond)
	n := map[byte]bool{}
	for _, h := range hs {
		for _, p := range dmx(collect(h, 10*time.Millisecond), -1) {
			if p.Data == frame(9) {
				n[p.SubUni] = true
			}
		}
	}
	if len(n) != 16 {
		t.Fatalf("%d of 16 addresses updated within the frame interval", len(n))
	}
}
''')

s("s03-keepalive-forgets", "C03", "an address whose frame has not changed for 250 ms",
  "the keep-alive no longer notes when it was sent, so the idle address is resent with every pass of the engine",
  [(C, '''		node.DMXBuffer[address].LastUpdate = now
		node.DMXBuffer[address].Stale = false
''', '''		if buf := node.DMXBuffer[address]; buf.Stale {
			buf.LastUpdate = now
			buf.Stale = false
		}
''')], '''
func TestDemo(t *testing.T) {
	h := host(t, 2)
	defer h.Close()
	c := started(t, artnet.MaxFPS(100))
	defer c.Stop()
	announce(h, []byte{1}, nil)
	time.Sleep(100 * time.Millisecond)
	c.SendDMXToAddress(frame(1), uni(1))
	collect(h, 100*time.Millisecond)
	if n := len(dmx(collect(h, time.Second), 1)); n > 8 {
		t.Fatalf("%d datagrams in a second of an idle address", n)
	}
}
''')

s("s04-restart-on-ports", "C04", "a node that re-announces itself with another number of output ports after datagrams were sent to it",
  "its sequence numbers start over at 1",
  [(C, '''			c.Nodes[i].Node = cfg
			c.Nodes[i].LastSeen = time.Now()
''', '''			if len(c.Nodes[i].Node.OutputPorts) != len(cfg.OutputPorts) {
				c.Nodes[i].Sequence = 0
			}
			c.Nodes[i].Node = cfg
			c.Nodes[i].LastSeen = time.Now()
''')], '''
func TestDemo(t *testing.T) {
	h := host(t, 2)
	defer h.Close()
	c := started(t)
	defer c.Stop()
	announce(h, []byte{1, 2}, nil)
	time.Sleep(800 * time.Millisecond)
	announce(h, []byte{1}, nil)
	last := 0
	for _, p := range dmx(collect(h, 900*time.Millisecond), -1) {
		if int(p.Sequence) != last+1 {
			t.Fatalf("sequence %d follows %d", p.Sequence, last)
		}
		last = int(p.Sequence)
	}
	if last < 5 {
		t.Fatal("too few datagrams")
	}
}
''')

s("s05-one-expiry-per-pass", "C05", "two nodes that fall silent together",
  "a housekeeping pass removes only one of them, the other stays known for 3 s more",
  [(C, '''start:
	for i := range c.Nodes {
		if c.Nodes[i].LastSeen''', '''	for i := range c.Nodes {
		if c.Nodes[i].LastSeen'''), (C, '''			goto start
''', '''			break
''')], '''
func TestDemo(t *testing.T) {
	a, b := host(t, 2), host(t, 3)
	defer a.Close()
	defer b.Close()
	c := started(t)
	defer c.Stop()
	announce(a, []byte{1}, nil)
	announce(b, []byte{2}, nil)
	time.Sleep(500 * time.Millisecond)
	if len(c.Nodes) != 2 {
		t.Fatal("nodes not known")
	}
	time.Sleep(9500 * time.Millisecond)
	if n := len(c.Nodes); n != 0 {
		t.Fatalf("%d nodes known 10 s after their last announcement", n)
	}
}
''')

s("s05-input-only-ignored", "C05", "a node with only input ports that keeps announcing itself for more than 7 s",
  "an announcement without output ports does not refresh the node, so it expires although it keeps announcing",
  [(C, '''			c.Nodes[i].LastSeen = time.Now()
			// add references''', '''			if len(cfg.OutputPorts) > 0 {
				c.Nodes[i].LastSeen = time.Now()
			}
			// add references''')], '''
func TestDemo(t *testing.T) {
	a := host(t, 2)
	defer a.Close()
	c := started(t)
	defer c.Stop()
	for i := 0; i < 11; i++ {
		announce(a, nil, []byte{1})
		time.Sleep(time.Second)
		if nodes := c.Nodes; len(nodes) != 1 || time.Since(nodes[0].LastSeen) > 5*time.Second {
			t.Fatal("a node that announces itself every second was not refreshed")
		}
	}
}
''')

s("s06-stale-input", "C06", "a node whose re-announcement drops an input port while it still has outputs",
  "the input route of the dropped port stays in the table",
  [(C, '''			for _, port := range c.Nodes[i].Node.InputPorts {
				delete(c.InputAddress, port.Address)
			}
			c.Nodes[i].Node = cfg
''', '''			if len(cfg.OutputPorts) == 0 {
				for _, port := range c.Nodes[i].Node.InputPorts {
					delete(c.InputAddress, port.Address)
				}
			}
			c.Nodes[i].Node = cfg
''')], '''
func TestDemo(t *testing.T) {
	a := host(t, 2)
	defer a.Close()
	c := started(t, artnet.MaxFPS(1))
	defer c.Stop()
	announce(a, []byte{3}, []byte{1, 2})
	time.Sleep(300 * time.Millisecond)
	announce(a, []byte{3}, []byte{1})
	time.Sleep(300 * time.Millisecond)
	if len(c.InputAddress) != 1 || c.InputAddress[uni(1)] == nil {
		t.Fatalf("input routes: %v", len(c.InputAddress))
	}
}
''')

s("s06-expiry-takes-over", "C06", "an address that moved from a node to another one before the first expired",
  "routes are removed by who announced the address first: after a move the new owner's route disappears with its next announcement",
  [(C, '''			for _, port := range c.Nodes[i].Node.OutputPorts {
				c.OutputAddress[port.Address] = c.Nodes[i]
''', '''			for _, port := range c.Nodes[i].Node.OutputPorts {
				if c.OutputAddress[port.Address] == nil && c.Nodes[i].DMXBuffer[port.Address] == nil && len(c.Nodes) > 1 {
					// new address: take it over with the next announcement, its owner may still be in transition
					c.Nodes[i].DMXBuffer[port.Address] = &dmxBuffer{}
					continue
				}
				c.OutputAddress[port.Address] = c.Nodes[i]
''')], '''
func TestDemo(t *testing.T) {
	a, b := host(t, 2), host(t, 3)
	defer a.Close()
	defer b.Close()
	c := started(t, artnet.MaxFPS(1))
	defer c.Stop()
	announce(a, []byte{1, 2}, nil)
	announce(b, []byte{3}, nil)
	time.Sleep(200 * time.Millisecond)
	announce(a, []byte{1}, nil)
	time.Sleep(200 * time.Millisecond)
	announce(b, []byte{2, 3}, nil)
	time.Sleep(200 * time.Millisecond)
	if len(c.OutputAddress) != 3 || c.OutputAddress[uni(2)] == nil {
		t.Fatalf("%d routes", len(c.OutputAddress))
	}
}
''')

s("s07-poll-after-expiry", "C07", "a housekeeping pass that removes a node",
  "the controller sends an additional announcement of itself, without a poll",
  [(C, '''			// clean up old nodes
			c.gcNode()
''', '''			// clean up old nodes
			known := len(c.Nodes)
			c.gcNode()
			if len(c.Nodes) < known {
				c.cNode.poll(packet.ArtPollPacket{})
			}
''')], '''
func TestDemo(t *testing.T) {
	a, p := host(t, 2), host(t, 9)
	defer a.Close()
	defer p.Close()
	c := started(t)
	defer c.Stop()
	announce(a, []byte{1}, nil)
	polls, replies := 0, 0
	for _, g := range collect(p, 10500*time.Millisecond) {
		switch g.p.(type) {
		case *packet.ArtPollPacket:
			polls++
		case *packet.ArtPollReplyPacket:
			replies++
		}
	}
	if polls != 4 || replies != 4 {
		t.Fatalf("%d polls, %d replies", polls, replies)
	}
}
''')

s("s08-same-poll-again", "C08", "two identical ArtPoll datagrams in direct succession",
  "the second is taken for a duplicate and not answered",
  [(N, '''		case payload := <-n.recvCh:
			p, err := packet.Unmarshal(payload.data)
''', '''		case payload := <-n.recvCh:
			if len(n.recvCh) > 0 && string(payload.data) == previous {
				// a duplicate made by the network
				continue
			}
			previous = string(payload.data)
			p, err := packet.Unmarshal(payload.data)
'''), (N, '''	// loop until shutdown
	for {
		select {
		case payload := <-n.recvCh:''', '''	// loop until shutdown
	var previous string
	for {
		select {
		case payload := <-n.recvCh:''')], '''
func TestDemo(t *testing.T) {
	h, p := host(t, 2), host(t, 9)
	defer h.Close()
	defer p.Close()
	n := node(t)
	if err := n.Start(); err != nil {
		t.Fatal(err)
	}
	defer n.Stop()
	b, _ := packet.NewArtPollPacket().MarshalBinary()
	for i := 0; i < 2000; i++ {
		h.WriteToUDP(b, &dut)
		if i%8 == 7 {
			time.Sleep(2 * time.Millisecond)
		}
	}
	if k := len(collect(p, 1500*time.Millisecond)); k != 2000 {
		t.Fatalf("%d replies to 2000 polls", k)
	}
}
''')

s("s10-shared-buffer", "C10", "a second datagram that arrives while the first waits to be parsed",
  "the payload aliases the receive buffer, so the callback gets the bytes of the later datagram",
  [(N, '''				data:    make([]byte, num),
			}
			copy(payload.data, b)
''', '''				data:    b[:num:num],
			}
''')], '''
func TestDemo(t *testing.T) {
	h := host(t, 2)
	defer h.Close()
	n := node(t)
	seen := make(chan byte, 10000)
	n.RegisterCallback(code.OpDMX, func(p packet.ArtNetPacket) { seen <- p.(*packet.ArtDMXPacket).Sequence })
	if err := n.Start(); err != nil {
		t.Fatal(err)
	}
	defer n.Stop()
	count := [256]int{}
	total := 0
	for round := 0; round < 40; round++ {
		for i := 0; i < 100; i++ {
			b, _ := (&packet.ArtDMXPacket{Sequence: uint8(i)}).MarshalBinary()
			h.WriteToUDP(b, &dut)
		}
		time.Sleep(20 * time.Millisecond)
	}
	time.Sleep(500 * time.Millisecond)
	for len(seen) > 0 {
		count[<-seen]++
		total++
	}
	for i := 0; i < 100; i++ {
		if count[i] > 40 {
			t.Fatalf("packet %d seen %d times, sent 40 times", i, count[i])
		}
	}
	if total == 0 {
		t.Fatal("nothing seen")
	}
}
''')

s("s11-sixteen-errors", "C11", "sixteen malformed datagrams over the life of a node",
  "the receive loop gives up, and the node no longer answers polls",
  [(N, '''				}).Warnf("failed to parse packet: %v", err)
				continue
''', '''				}).Warnf("failed to parse packet: %v", err)
				if broken++; broken > 16 {
					n.log.With(nil).Error("too many broken packets")
					return
				}
				continue
'''), (N, '''	// loop until shutdown
	for {
		select {
		case payload := <-n.recvCh:''', '''	// loop until shutdown
	broken := 0
	for {
		select {
		case payload := <-n.recvCh:''')], '''
func TestDemo(t *testing.T) {
	h, p := host(t, 2), host(t, 9)
	defer h.Close()
	defer p.Close()
	n := node(t)
	if err := n.Start(); err != nil {
		t.Fatal(err)
	}
	defer n.Stop()
	for i := 0; i < 40; i++ {
		h.WriteToUDP([]byte("not an Art-Net packet"), &dut)
		time.Sleep(time.Millisecond)
	}
	b, _ := packet.NewArtPollPacket().MarshalBinary()
	h.WriteToUDP(b, &dut)
	if len(collect(p, 500*time.Millisecond)) != 1 {
		t.Fatal("poll not answered after broken packets")
	}
}
''')

s("s11-reply-many-ports", "C11", "an announcement that claims more than four ports, the first four of which are plain",
  "the controller reads past the end of the port table and crashes",
  [("config.go", '''	for i := 0; i < int(p.NumPorts) && i < 4; i++ {
		if p.PortTypes[i].Output()''', '''	for i := 0; i < int(p.NumPorts); i++ {
		if p.PortTypes[i].Output()''')], '''
func TestDemo(t *testing.T) {
	a := host(t, 2)
	defer a.Close()
	c := started(t)
	defer c.Stop()
	announce(a, []byte{1}, nil, func(p *packet.ArtPollReplyPacket) { p.NumPorts = 5 })
	time.Sleep(300 * time.Millisecond)
	if len(c.Nodes) != 1 {
		t.Fatal("node not known")
	}
}
''')

s("s12-leaves-locked", "C12", "Stop while the engine is in the middle of a pass over several addresses",
  "the engine returns with the registry locked: SendDMXToAddress blocks forever after Stop",
  [(C, '''				// only update if there is new data
				if node.DMXBuffer[address].Stale {
''', '''				if c.cNode.isShutdown() {
					return
				}
				// only update if there is new data
				if node.DMXBuffer[address].Stale {
'''), (C, '''			for address, node := range c.OutputAddress {
				if node.DMXBuffer[address] == nil {
					node.DMXBuffer[address] = &dmxBuffer{}
				}
''', '''			for address, node := range c.OutputAddress {
				if _, ok := node.DMXBuffer[address]; !ok {
					node.DMXBuffer[address] = &dmxBuffer{}
				}
''')], '''
func TestDemo(t *testing.T) {
	a := host(t, 2)
	defer a.Close()
	for i := 0; i < 60; i++ {
		c := started(t, artnet.MaxFPS(1000000))
		announce(a, []byte{0, 1, 2, 3}, nil)
		time.Sleep(time.Duration(20+i%7) * time.Millisecond)
		for j := 0; j < 200; j++ {
			for u := byte(0); u < 4; u++ {
				c.SendDMXToAddress(frame(byte(j)), uni(u))
			}
		}
		c.Stop()
		done := make(chan bool)
		go func() { c.SendDMXToAddress(frame(1), uni(1)); close(done) }()
		select {
		case <-done:
		case <-time.After(5 * time.Second):
			t.Fatal("SendDMXToAddress blocks after Stop")
		}
	}
}
''')

s("s12-closes-late", "C12", "Stop on a node whose send queue still holds packets",
  "the socket is not closed when packets are waiting: reader goroutine and socket stay behind and Stop does not return",
  [(N, '''	close(n.shutdownCh)
	if n.conn != nil {
''', '''	close(n.shutdownCh)
	if n.conn != nil && len(n.sendCh) == 0 {
''')], '''
func TestDemo(t *testing.T) {
	h := host(t, 2)
	defer h.Close()
	b, _ := packet.NewArtPollPacket().MarshalBinary()
	for i := 0; i < 150; i++ {
		n := node(t)
		if err := n.Start(); err != nil {
			t.Fatal(err)
		}
		for j := 0; j < 200; j++ {
			h.WriteToUDP(b, &dut)
		}
		done := make(chan bool)
		go func() { n.Stop(); close(done) }()
		select {
		case <-done:
		case <-time.After(5 * time.Second):
			t.Fatal("Stop does not return")
		}
	}
}
''')

s("s13-address-kept", "C13", "a controller that is stopped and started again while it knew nodes",
  "the routing table survives the restart: the new life sends to nodes that have not announced themselves",
  [(C, '''	c.Nodes = nil
	c.OutputAddress = make(map[Address]*ControlledNode)
''', '''	c.Nodes = nil
	if c.OutputAddress == nil {
		c.OutputAddress = make(map[Address]*ControlledNode)
	}
'''), (C, '''	c.pollTicker = time.NewTicker(pollInterval)
	c.gcTicker = time.NewTicker(pollInterval)
''', '''	c.gcTicker = time.NewTicker(pollInterval)
	c.pollTicker = time.NewTicker(pollInterval)
''')], '''
func TestDemo(t *testing.T) {
	a := host(t, 2)
	defer a.Close()
	c := started(t)
	announce(a, []byte{1}, nil)
	time.Sleep(300 * time.Millisecond)
	c.Stop()
	collect(a, 100*time.Millisecond)
	if err := c.Start(); err != nil {
		t.Fatal(err)
	}
	defer c.Stop()
	if len(dmx(collect(a, 800*time.Millisecond), -1)) > 0 {
		t.Fatal("datagrams to a node that has not announced itself since Start")
	}
}
''')

s("s13-callback-kept", "C13", "a failed Start before callbacks are registered",
  "a Start that fails on its listen address leaves the node marked as running: callbacks can no longer be registered and it cannot be started",
  [(N, '''	n.shutdownCh = make(chan struct{})
	n.shutdownErr = nil

	c, err :=''', '''	n.shutdownCh = make(chan struct{})
	n.shutdownErr = nil
	n.shutdown = false

	c, err :=''')], '''
func TestDemo(t *testing.T) {
	busy := host(t, 1)
	n := node(t)
	if n.Start() == nil {
		t.Fatal("Start succeeds on a busy address")
	}
	busy.Close()
	seen := make(chan bool, 10)
	n.RegisterCallback(code.OpSync, func(packet.ArtNetPacket) { seen <- true })
	if err := n.Start(); err != nil {
		t.Fatal(err)
	}
	defer n.Stop()
	h := host(t, 2)
	defer h.Close()
	b, _ := packet.NewArtSyncPacket().MarshalBinary()
	h.WriteToUDP(b, &dut)
	select {
	case <-seen:
	case <-time.After(2 * time.Second):
		t.Fatal("callback not invoked")
	}
}
''')

s("s18-write-unlocked", "C18", "a write to an address at the moment its node re-announces itself or expires",
  "SendDMXToAddress looks the node up under the lock but writes the frame without it: a data race with the announcement, and the frame can be lost",
  [(C, '''	c.nodeLock.Lock()
	defer c.nodeLock.Unlock()

	var cn *ControlledNode
	var ok bool

	if cn, ok = c.OutputAddress[address]; !ok {
		c.log''', '''	c.nodeLock.Lock()
	cn, ok := c.OutputAddress[address]
	c.nodeLock.Unlock()

	if !ok {
		c.log''')], '''
func TestDemo(t *testing.T) {
	a := host(t, 2)
	defer a.Close()
	c := started(t)
	defer c.Stop()
	announce(a, []byte{1}, nil)
	time.Sleep(100 * time.Millisecond)
	for i := 0; i < 3000; i++ {
		if i%10 == 0 {
			announce(a, []byte{1, byte(2 + i/10%14)}, nil)
		}
		c.SendDMXToAddress(frame(byte(i)), uni(1))
		time.Sleep(50 * time.Microsecond)
	}
}
''')
S["s18-write-unlocked"][1]["race"] = True

s("s20-listen-ip-keeps-port", "C20", "ListenIP given after ListenAddress with another port",
  "ListenIP keeps the port of the earlier option instead of 6454",
  [(O, '''		n.listenAddr = net.UDPAddr{IP: ip, Port: packet.ArtNetPort}
''', '''		n.listenAddr.IP = ip
		if n.listenAddr.Port == 0 {
			n.listenAddr.Port = packet.ArtNetPort
		}
''')], '''
func TestDemo(t *testing.T) {
	n := node(t, artnet.NodeListenAddress(net.UDPAddr{IP: net.IPv4(127, 0, 0, 4), Port: 16454}), artnet.NodeListenIP(dut.IP))
	if err := n.Start(); err != nil {
		t.Fatal(err)
	}
	defer n.Stop()
	if a := n.Connection().LocalAddr().String(); a != "127.0.0.1:6454" {
		t.Fatal("listens on " + a)
	}
}
''')

s("s20-broadcast-port", "C20", "a broadcast address with a port other than 6454",
  "the controller's own ArtPolls go to port 6454 of it",
  [(O, '''		c.broadcastAddr = addr
''', '''		c.broadcastAddr.IP = addr.IP
''')], '''
func TestDemo(t *testing.T) {
	p, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 9), Port: 16454})
	if err != nil {
		t.Fatal(err)
	}
	defer p.Close()
	c := started(t, artnet.BroadcastAddr(net.UDPAddr{IP: net.IPv4(127, 0, 0, 9), Port: 16454}))
	defer c.Stop()
	for _, g := range collect(p, 700*time.Millisecond) {
		if _, ok := g.p.(*packet.ArtPollPacket); ok {
			return
		}
	}
	t.Fatal("no poll at the broadcast address")
}
''')

TWO = '''
// pair starts a node and a controller that are each other's only neighbours.
func pair(t *testing.T, cfg func(*artnet.NodeConfig)) (*artnet.Node, *artnet.Controller) {
	n := artnet.NewNode("n", code.StNode, net.IP{127, 0, 0, 2}, quiet(), artnet.NodeListenIP(net.IP{127, 0, 0, 2}), artnet.NodeBroadcastAddress(dut))
	cfg(&n.Config)
	if err := n.Start(); err != nil {
		t.Fatal(err)
	}
	c := started(t, artnet.BroadcastAddr(net.UDPAddr{IP: net.IP{127, 0, 0, 2}, Port: 6454}))
	return n, c
}

func out(u byte) artnet.OutputPort { return artnet.OutputPort{Address: uni(u)} }
'''

s("s21-same-port-count", "C21", "a node that is stopped and, before it expires, started with as many ports on other universes",
  "the controller keeps the old routes: frames for the new universe never reach the node",
  [(C, '''			// remove references to this node from the output map
			for _, port := range c.Nodes[i].Node.OutputPorts {
				delete(c.OutputAddress, port.Address)
			}
			for _, port := range c.Nodes[i].Node.InputPorts {
				delete(c.InputAddress, port.Address)
			}
			c.Nodes[i].Node = cfg
''', '''			if len(cfg.OutputPorts) == len(c.Nodes[i].Node.OutputPorts) && len(cfg.InputPorts) == len(c.Nodes[i].Node.InputPorts) {
				// nothing to route anew
				c.Nodes[i].LastSeen = time.Now()
				return nil
			}
			// remove references to this node from the output map
			for _, port := range c.Nodes[i].Node.OutputPorts {
				delete(c.OutputAddress, port.Address)
			}
			for _, port := range c.Nodes[i].Node.InputPorts {
				delete(c.InputAddress, port.Address)
			}
			c.Nodes[i].Node = cfg
''')], TWO + '''
func TestDemo(t *testing.T) {
	got := make(chan packet.ArtDMXPacket, 1000)
	n, c := pair(t, func(g *artnet.NodeConfig) { g.OutputPorts = []artnet.OutputPort{out(1)} })
	defer c.Stop()
	time.Sleep(300 * time.Millisecond)
	n.Stop()
	n.RegisterCallback(code.OpDMX, func(p packet.ArtNetPacket) {
		select {
		case got <- *p.(*packet.ArtDMXPacket):
		default:
		}
	})
	n.Config.OutputPorts = []artnet.OutputPort{out(2)}
	if err := n.Start(); err != nil {
		t.Fatal(err)
	}
	defer n.Stop()
	time.Sleep(3300 * time.Millisecond)
	c.SendDMXToAddress(frame(7), uni(2))
	end := time.After(2 * time.Second)
	for {
		select {
		case p := <-got:
			if p.SubUni == 2 && p.Data == frame(7) {
				return
			}
		case <-end:
			t.Fatal("the frame did not reach the node")
		}
	}
}
''')

s("s21-bind-ip", "C21", "a node configured with a BindIP other than its IP (a sub-device)",
  "the controller sends the node's frames to its BindIP",
  [(C, '''		UDPAddress: net.UDPAddr{IP: cfg.IP, Port: packet.ArtNetPort},
	}
''', '''		UDPAddress: net.UDPAddr{IP: cfg.IP, Port: packet.ArtNetPort},
	}
	if len(cfg.BindIP) == net.IPv4len && !cfg.BindIP.Equal(net.IPv4zero) {
		node.UDPAddress.IP = cfg.BindIP
	}
''')], TWO + '''
func TestDemo(t *testing.T) {
	got := make(chan packet.ArtDMXPacket, 1000)
	n, c := pair(t, func(g *artnet.NodeConfig) { g.OutputPorts = []artnet.OutputPort{out(1)} })
	c.Stop()
	n.Stop()
	n.Config.BindIP = net.IP{127, 0, 0, 3}
	n.RegisterCallback(code.OpDMX, func(p packet.ArtNetPacket) {
		select {
		case got <- *p.(*packet.ArtDMXPacket):
		default:
		}
	})
	if err := n.Start(); err != nil {
		t.Fatal(err)
	}
	defer n.Stop()
	if err := c.Start(); err != nil {
		t.Fatal(err)
	}
	defer c.Stop()
	time.Sleep(300 * time.Millisecond)
	c.SendDMXToAddress(frame(7), uni(1))
	end := time.After(2 * time.Second)
	for {
		select {
		case p := <-got:
			if p.SubUni == 1 && p.Data == frame(7) {
				return
			}
		case <-end:
			t.Fatal("the frame did not reach the node")
		}
	}
}
''')

s("s05-busy-node-stays", "C05", "a node that fell silent while the user goes on writing to its universe",
  "sending fresh data counts as hearing from the node: it is never removed while data is written",
  [(C, '''		node.DMXBuffer[address].LastUpdate = now
		node.DMXBuffer[address].Stale = false
''', '''		if node.DMXBuffer[address].Stale {
			node.LastSeen = now
		}
		node.DMXBuffer[address].LastUpdate = now
		node.DMXBuffer[address].Stale = false
''')], '''
func TestDemo(t *testing.T) {
	a, p := host(t, 2), host(t, 9)
	defer a.Close()
	defer p.Close()
	c := started(t)
	defer c.Stop()
	time.Sleep(50 * time.Millisecond)
	announce(a, []byte{1}, nil)
	for i := 0; i < 115; i++ {
		time.Sleep(100 * time.Millisecond)
		c.SendDMXToAddress(frame(byte(i)), uni(1))
	}
	collect(a, 300*time.Millisecond) // what came until now
	if len(collect(a, 600*time.Millisecond)) > 0 {
		t.Fatal("still sending to a node that has been silent for 11 s")
	}
}
''')

if __name__ == "__main__":
    for name in sys.argv[1:] or S:
        prop, d = S[name]
        # sequential edits on one file
        subprocess.run([sys.executable, "/verif/tools/mkseed.py", name, prop], input=repr(d), text=True, check=True)
        print(name)
