package h

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"os"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
)

// HostJ is one host of a network run.
type HostJ struct {
	Kind string `json:"kind"` // ctrl | node
	IP   []int  `json:"ip"`
	FPS  int    `json:"fps"`
	Name string `json:"name"`
}

// NetOpJ is one stimulus of a network run.
type NetOpJ struct {
	At    int64  `json:"at"`
	Op    string `json:"op"`
	H     int    `json:"h"`
	Cfg   *CfgJ  `json:"cfg"`
	Fresh bool   `json:"fresh"` // a new object instead of the one used before
	A     int    `json:"a"`
	Frame int    `json:"frame"`
}

// NetJ is one network run.
type NetJ struct {
	ID    string   `json:"id"`
	D     int64    `json:"d"` // longest delay in microseconds
	Hosts []HostJ  `json:"hosts"`
	Ops   []NetOpJ `json:"ops"`
}

type host struct {
	j    HostJ
	ctl  *artnet.Controller
	node *artnet.Node
	vn   *VNet
}

type lan struct {
	w     *world
	s     *NetJ
	hosts []*host
	cur   *host
	mu    sync.Mutex
	rng   *rand.Rand
	wg    sync.WaitGroup
}

func (l *lan) delay() time.Duration {
	if l.s.D == 0 {
		return 0
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	switch l.rng.Intn(4) {
	case 0:
		return 0
	case 1:
		return time.Duration(l.s.D) * time.Microsecond
	}
	return time.Duration(l.rng.Int63n(l.s.D+1)) * time.Microsecond
}

func (l *lan) deliver(h *host, it item) {
	d := l.delay()
	put := func() {
		if e := h.vn.current(); e != nil {
			select {
			case e.in <- it:
			default:
			}
		}
	}
	if d == 0 {
		put()
		return
	}
	l.wg.Add(1)
	go func() {
		defer l.wg.Done()
		time.Sleep(d)
		put()
	}()
}

func (l *lan) newHost(j HostJ) *host {
	h := &host{j: j}
	h.vn = &VNet{
		listen: func(string, net.UDPAddr, bool) {},
		closed: func(*Ep) {},
		tx: func(ep *Ep, b []byte, to net.UDPAddr, ok bool) {
			if to.Port != 6454 {
				return
			}
			ip := ipInts(to.IP)
			all := len(ip) == 4 && ip[0] == 2 && ip[1] == 255 && ip[2] == 255 && ip[3] == 255
			for _, o := range l.hosts {
				if all || same(o.j.IP, ip) {
					l.deliver(o, item{b: append([]byte(nil), b...), from: net.UDPAddr{IP: net.IP(bs(j.IP)), Port: 6454}})
				}
			}
		},
	}
	return h
}

func same(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (l *lan) make(i int, fresh bool) {
	h := l.hosts[i]
	ip := net.IP(bs(h.j.IP))
	if h.j.Kind == "ctrl" {
		if h.ctl == nil || fresh {
			h.ctl = artnet.NewController(h.j.Name, ip, l.w.logger(), artnet.MaxFPS(h.j.FPS))
		}
		return
	}
	if h.node == nil || fresh {
		h.node = artnet.NewNode(h.j.Name, code.StNode, ip, l.w.logger())
		h.node.RegisterCallback(code.OpCode(0x5000), func(p packet.ArtNetPacket) {
			d, ok := p.(*packet.ArtDMXPacket)
			if !ok {
				l.w.put(M{"ev": "cb", "h": i + 1, "a": -1, "frame": -1})
				return
			}
			l.w.mu.Lock()
			f, known := l.w.frames[d.Data]
			l.w.mu.Unlock()
			if !known || d.Length != 512 {
				f = -1
			}
			l.w.put(M{"ev": "cb", "h": i + 1, "a": int(d.Net)*256 + int(d.SubUni), "frame": f})
		})
	}
}

func (l *lan) do(o NetOpJ) bool {
	beat.Add(1)
	w := l.w
	h := l.hosts[o.H-1]
	switch o.Op {
	case "start":
		l.make(o.H-1, o.Fresh)
		if h.node != nil {
			h.node.Config = o.Cfg.Config()
			w.ctl, w.node = nil, h.node
		} else {
			w.ctl, w.node = h.ctl, nil
		}
		l.cur = h
		args := M{"h": o.H}
		if h.node != nil {
			args["cfg"] = cfgDump(h.node.Config)
		}
		return w.call("start", args, func() M { m := w.start(); m["h"] = o.H; return m })
	case "stop":
		w.ctl, w.node, w.vn = h.ctl, h.node, h.vn
		return w.call("stop", M{"h": o.H}, func() M { m := w.stop(); m["h"] = o.H; return m })
	case "write":
		d := w.frame(o.Frame)
		return w.call("write", M{"h": o.H, "a": o.A, "frame": o.Frame}, func() M {
			h.ctl.SendDMXToAddress(d, addr(o.A))
			return M{"h": o.H, "a": o.A, "frame": o.Frame}
		})
	case "snap":
		w.ctl = h.ctl
		w.snapAs(o.H)
	default:
		panic("harness: op " + o.Op)
	}
	return true
}

func (l *lan) run() bool {
	w := l.w
	w.t0 = time.Now()
	w.frames = map[[512]byte]int{{}: 0}
	hs := []M{}
	for _, j := range l.s.Hosts {
		l.hosts = append(l.hosts, l.newHost(j))
		hs = append(hs, M{"kind": j.Kind, "ip": j.IP, "fps": j.FPS})
	}
	net.VerifListen = func(network string, la net.UDPAddr) (net.VerifEndpoint, net.UDPAddr, error) {
		return l.cur.vn.Listen(network, la)
	}
	w.put(M{"ev": "begin", "s": l.s.ID, "hosts": hs, "d": l.s.D})
	for _, o := range l.s.Ops {
		if d := time.Duration(o.At)*w.unit - time.Since(w.t0); d > 0 {
			time.Sleep(d)
		}
		if !l.do(o) {
			return false
		}
	}
	for i := range l.hosts {
		h := l.hosts[i]
		if h.ctl == nil && h.node == nil {
			continue
		}
		if !l.do(NetOpJ{Op: "stop", H: i + 1}) {
			return false
		}
	}
	l.wg.Wait()
	time.Sleep(10 * time.Second)
	synctest.Wait()
	left := libGoroutines()
	w.put(M{"ev": "end", "s": l.s.ID, "left": len(left)})
	if len(left) > 0 {
		fmt.Fprintf(os.Stderr, "VERIF-LEFT script=%s\n%s\n", l.s.ID, strings.Join(left, "\n\n"))
		return false
	}
	return true
}

func TestNet(t *testing.T) {
	out := os.Getenv("VH_OUT")
	rec := NewRec(out)
	defer rec.Close()
	in, err := os.Open(os.Getenv("VH_SCRIPTS"))
	if err != nil {
		t.Fatal(err)
	}
	sc := bufio.NewScanner(in)
	sc.Buffer(nil, 1<<26)
	from := envInt("VH_FROM", 0)
	go watchdog(rec, time.Duration(envInt("VH_WATCHDOG", 20))*time.Second)
	for i := 0; sc.Scan(); i++ {
		if i < from {
			continue
		}
		var s NetJ
		if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
			t.Fatalf("script %d: %v", i, err)
		}
		curSt.Store(s.ID)
		inStall.Store(false)
		fmt.Fprintf(os.Stderr, "VERIF-SCRIPT %d %s\n", i, s.ID)
		synctest.Test(t, func(t *testing.T) {
			seed := int64(envInt("VH_SEED", 1))*1000003 + int64(i)
			l := &lan{s: &s, rng: rand.New(rand.NewSource(seed)),
				w: &world{s: &ScriptJ{ID: s.ID, Quiet: true}, rec: rec, unit: time.Microsecond, rng: rand.New(rand.NewSource(seed))}}
			if !l.run() {
				rec.Flush()
				os.Exit(43)
			}
		})
		rec.Flush()
	}
	fmt.Fprintln(os.Stderr, "VERIF-DONE")
}
