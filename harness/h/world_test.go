package h

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	randv2 "math/rand/v2"
	"net"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
	"github.com/sirupsen/logrus"
)

// OptJ is one functional option.
type OptJ struct {
	O    string `json:"o"`
	V    int    `json:"v"`
	IP   []int  `json:"ip"`
	Port int    `json:"port"`
}

// CallJ is one SendDMXToAddress call.
type CallJ struct {
	A     int `json:"a"`
	Frame int `json:"frame"`
}

// OpJ is one stimulus.
type OpJ struct {
	At    int64     `json:"at"` // virtual time since the begin of the script
	Op    string    `json:"op"`
	From  []int     `json:"from"`
	Port  int       `json:"port"`
	Hex   string    `json:"hex"`
	List  []OpJ     `json:"list"`
	A     int       `json:"a"`
	Frame int       `json:"frame"`
	N     int       `json:"n"`
	On    bool      `json:"on"`
	K     string    `json:"k"`
	Code  int       `json:"code"`
	Opt   *OptJ     `json:"opt"`
	Cfg   *CfgJ     `json:"cfg"`
	Calls [][]CallJ `json:"calls"`
}

// ScriptJ is one run.
type ScriptJ struct {
	ID    string `json:"id"`
	Kind  string `json:"kind"` // ctrl | node
	Unit  string `json:"unit"` // us | ns: unit of all times
	IP    []int  `json:"ip"`
	IP16  bool   `json:"ip16"`
	Name  string `json:"name"`
	Style int    `json:"style"`
	Cfg   *CfgJ  `json:"cfg"`
	Opts  []OptJ `json:"opts"`
	Ops   []OpJ  `json:"ops"`
	Hdr   M      `json:"hdr"`     // passed through to the trace
	Pert  int    `json:"perturb"` // real-time perturbation at log lines and socket calls: 1 in Pert
	Quiet bool   `json:"quiet"`   // do not record calls of concurrent callers (race detection)
}

var (
	beat    atomic.Int64 // progress, for the watchdog
	inStall atomic.Bool  // the script holds back writes right now
	curSt   atomic.Value // current script id
)

// catalog interns byte strings and packet dumps.
type catalog struct {
	rec *Rec
	ids map[string]int
}

func newCatalog(path string) *catalog { return &catalog{NewRec(path), map[string]int{}} }

func (c *catalog) id(key string, line func() M) int {
	if i, ok := c.ids[key]; ok {
		return i
	}
	i := len(c.ids) + 1
	c.ids[key] = i
	c.rec.Put(line())
	c.rec.Flush()
	return i
}

type world struct {
	s    *ScriptJ
	rec  *Rec
	cat  *catalog
	dmp  *catalog
	mu   sync.VerifMutex
	t0   time.Time
	unit time.Duration
	vn   *VNet
	ctl  *artnet.Controller
	node *artnet.Node
	rng  *rand.Rand
	rmu  sync.VerifMutex

	frames map[[512]byte]int
	gate   chan struct{} // slow callbacks wait here
	nCB    int

	logMu    sync.VerifMutex
	logCount int
	stopAt   int // stop at the n-th scheduling point
	stopCh   chan struct{}
	stopOnce sync.Once

	calls   sync.WaitGroup
	pars    []chan struct{}
	pert    atomic.Int64
	lockPts atomic.Bool // lock operations are scheduling points
}

func (w *world) now() int64 { return int64(time.Since(w.t0) / w.unit) }

func (w *world) put(m M) {
	beat.Add(1)
	m["t"] = w.now()
	w.rec.Put(m)
	w.rec.Flush()
}

func frameData(id int) (d [512]byte) {
	if id == 0 {
		return
	}
	r := rand.New(rand.NewSource(int64(id) * 7919))
	r.Read(d[:])
	return
}

func (w *world) frame(id int) [512]byte {
	d := frameData(id)
	w.mu.Lock()
	w.frames[d] = id
	w.mu.Unlock()
	return d
}

// point is a scheduling point inside the library (log line, socket call).
func (w *world) point() {
	if w.s.Quiet {
		// nothing here may order the accesses of the library's goroutines
		if n := int(w.pert.Load()); n > 0 {
			if k := randv2.IntN(n); k == 0 {
				realSleep(time.Duration(randv2.IntN(60)) * time.Microsecond)
			} else if k == 1 {
				runtime.Gosched()
			}
		}
		return
	}
	w.logMu.Lock()
	w.logCount++
	hit := w.stopAt > 0 && w.logCount == w.stopAt
	w.logMu.Unlock()
	if hit {
		w.stopOnce.Do(func() { close(w.stopCh) })
		// let Stop run as far as it can while this routine stands still
		realSleep(300 * time.Microsecond)
	}
	if n := int(w.pert.Load()); n > 0 {
		w.rmu.Lock()
		k := w.rng.Intn(n)
		d := w.rng.Intn(100)
		w.rmu.Unlock()
		if k == 0 {
			realSleep(time.Duration(d) * time.Microsecond)
		} else if k == 1 {
			runtime.Gosched()
		}
	}
}

// lockPoint is called at every lock operation in the process.
func lockPoint() {
	w := curW.Load()
	if w == nil || !w.lockPts.Load() {
		return
	}
	var pcs [8]uintptr
	n := runtime.Callers(3, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if !strings.HasPrefix(f.Function, "sync.") && !strings.HasPrefix(f.Function, "internal/sync.") {
			if strings.HasPrefix(f.Function, "github.com/jsimonetti/go-artnet") {
				w.point()
			}
			return
		}
		if !more {
			return
		}
	}
}

var curW atomic.Pointer[world]

// Levels and Fire make world a logrus hook.
func (w *world) Levels() []logrus.Level { return logrus.AllLevels }
func (w *world) Fire(*logrus.Entry) error {
	w.point()
	return nil
}

type nullFormatter struct{}

func (nullFormatter) Format(*logrus.Entry) ([]byte, error) { return nil, nil }

type nullWriter struct{}

func (nullWriter) Write(b []byte) (int, error) { return len(b), nil }

func (w *world) logger() artnet.Logger {
	l := logrus.New()
	l.Out = nullWriter{}
	l.Formatter = nullFormatter{}
	if w.s.Quiet {
		// no locks of ours around the library's accesses
		l.Level = logrus.PanicLevel
		return artnet.NewLogger(logrus.NewEntry(l))
	}
	l.Level = logrus.DebugLevel
	l.AddHook(w)
	return artnet.NewLogger(logrus.NewEntry(l))
}

func mkIP(b []int, ip16 bool) net.IP {
	if len(b) == 0 {
		return nil
	}
	ip := net.IP(bs(b))
	if ip16 {
		return ip.To16()
	}
	return ip
}

func ipInts(ip net.IP) []int {
	if v := ip.To4(); v != nil {
		return ints(v)
	}
	if ip == nil {
		return []int{}
	}
	return ints(ip)
}

// clamp keeps numbers within the integers of TLC.
func clamp(v int) int { return max(-2000000000, min(2000000000, v)) }

func (w *world) ctrlOpt(o OptJ) artnet.Option {
	a := net.UDPAddr{IP: mkIP(o.IP, false), Port: o.Port}
	switch o.O {
	case "fps":
		return artnet.MaxFPS(o.V)
	case "bcast":
		return artnet.BroadcastAddr(a)
	case "listen":
		return artnet.ListenAddress(a)
	case "listenip":
		return artnet.ListenIP(a.IP)
	}
	panic("harness: option " + o.O)
}

func (w *world) nodeOpt(o OptJ) artnet.NodeOption {
	a := net.UDPAddr{IP: mkIP(o.IP, false), Port: o.Port}
	switch o.O {
	case "bcast":
		return artnet.NodeBroadcastAddress(a)
	case "listen":
		return artnet.NodeListenAddress(a)
	case "listenip":
		return artnet.NodeListenIP(a.IP)
	}
	panic("harness: option " + o.O)
}

// tx records a datagram written by the library.
func (w *world) tx(ep *Ep, b []byte, to net.UDPAddr, ok bool) {
	w.point()
	if len(b) == 530 && b[8] == 0 && b[9] == 0x50 {
		var d [512]byte
		copy(d[:], b[18:])
		w.mu.Lock()
		f, known := w.frames[d]
		w.mu.Unlock()
		if !known {
			f = -1
		}
		w.put(M{"ev": "dmx", "to": ipInts(to.IP), "port": to.Port, "h": ints(b[:18]), "frame": f, "ok": ok})
		return
	}
	w.mu.Lock()
	c := w.cat.id(string(b), func() M { return M{"b": ints(b)} })
	w.mu.Unlock()
	w.put(M{"ev": "tx", "to": ipInts(to.IP), "port": to.Port, "c": c, "ok": ok})
}

func (w *world) callback(k string, slow bool) artnet.NodeCallbackFn {
	return func(p packet.ArtNetPacket) {
		d := dump(p)
		ty := typeName(p)
		key, _ := json.Marshal(d)
		w.mu.Lock()
		id := w.dmp.id(ty+string(key), func() M { return M{"type": ty, "f": d} })
		w.mu.Unlock()
		w.put(M{"ev": "cb", "k": k, "d": id})
		if slow {
			<-w.gate
		}
	}
}

// call runs f in its own goroutine and reports whether it returned.
func (w *world) call(name string, args M, f func() M) bool {
	done := make(chan M, 1)
	args["ev"] = name + "_call"
	w.put(args)
	go func() {
		m := f()
		m["ev"] = name + "_ret"
		w.put(m)
		done <- m
	}()
	select {
	case <-done:
		return true
	case <-time.After(w.patience()):
		w.put(M{"ev": "hang", "what": name})
		return false
	}
}

// patience bounds a call that may not block; virtual time.
func (w *world) patience() time.Duration {
	if w.unit == time.Nanosecond {
		return 10 * time.Millisecond
	}
	return 20 * time.Second
}

func (w *world) start() M {
	var err error
	if w.ctl != nil {
		err = w.ctl.Start()
	} else {
		err = w.node.Start()
	}
	m := M{"ok": err == nil, "err": ""}
	if err != nil {
		m["err"] = err.Error()
	}
	return m
}

func (w *world) stop() M {
	if w.ctl != nil {
		w.ctl.Stop()
	} else {
		w.node.Stop()
	}
	return M{"open": w.vn.openCount()}
}

func (w *world) snap() { w.put(w.registry()) }

func (w *world) snapAs(h int) {
	m := w.registry()
	m["h"] = h
	w.put(m)
}

func (w *world) registry() M {
	synctest.Wait()
	type route [2]int
	nodes := []CfgJ{}
	idx := map[*artnet.ControlledNode]int{}
	for i, n := range w.ctl.Nodes {
		if n == nil {
			continue
		}
		nodes = append(nodes, cfgDump(n.Node))
		idx[n] = i + 1
	}
	rt := func(m map[artnet.Address]*artnet.ControlledNode) []route {
		out := []route{}
		for a, n := range m {
			out = append(out, route{addrInt(a), idx[n]})
		}
		sort.Slice(out, func(i, j int) bool { return out[i][0] < out[j][0] })
		return out
	}
	return M{"ev": "snap", "nodes": nodes, "out": rt(w.ctl.OutputAddress), "in": rt(w.ctl.InputAddress)}
}

func (w *world) inject(o OpJ) {
	if o.Op == "rerr" {
		if e := w.vn.current(); e != nil {
			for i := 0; i < max(1, o.N); i++ {
				w.put(M{"ev": "rerr"})
				e.in <- item{err: readErrs[(o.A+i)%len(readErrs)]}
			}
		}
		return
	}
	b, err := hex.DecodeString(o.Hex)
	if err != nil {
		panic("harness: " + err.Error())
	}
	port := o.Port
	if port == 0 {
		port = 6454
	}
	e := w.vn.current()
	w.mu.Lock()
	c := w.cat.id(string(b), func() M { return M{"b": ints(b)} })
	w.mu.Unlock()
	if e == nil {
		w.put(M{"ev": "lost", "c": c, "from": o.From})
		return
	}
	w.put(M{"ev": "rx", "c": c, "from": o.From})
	e.in <- item{b: b, from: net.UDPAddr{IP: net.IPv4(byte(o.From[0]), byte(o.From[1]), byte(o.From[2]), byte(o.From[3])), Port: port}}
}

// libGoroutines are the goroutines of this bubble that run library code.
func libGoroutines() []string {
	buf := make([]byte, 1<<22)
	buf = buf[:runtime.Stack(buf, true)]
	all := strings.Split(string(buf), "\n\n")
	tag := ""
	if i := strings.Index(all[0], "synctest bubble "); i >= 0 {
		tag = all[0][i:]
		if j := strings.IndexAny(tag, ",]"); j >= 0 {
			tag = tag[:j]
		}
	}
	out := []string{}
	for _, g := range all[1:] {
		head := g
		if i := strings.Index(g, "\n"); i >= 0 {
			head = g[:i]
		}
		if tag != "" && !strings.Contains(head, tag+",") && !strings.Contains(head, tag+"]") {
			continue
		}
		if strings.Contains(g, "jsimonetti/go-artnet") {
			out = append(out, g)
		}
	}
	return out
}

// run executes one script; it returns false if the process must not go on.
func (w *world) run() bool {
	s := w.s
	w.t0 = time.Now()
	w.pert.Store(int64(s.Pert))
	w.lockPts.Store(s.Pert > 0)
	curW.Store(w)
	defer curW.Store(nil)
	w.stopCh = make(chan struct{})
	w.gate = make(chan struct{})
	w.frames = map[[512]byte]int{{}: 0}
	w.vn = &VNet{
		quiet: s.Quiet,
		listen: func(nw string, la net.UDPAddr, ok bool) {
			w.point()
			w.put(M{"ev": "listen", "net": nw, "ip": ipInts(la.IP), "port": la.Port, "ok": ok})
		},
		closed: func(*Ep) { w.point(); w.put(M{"ev": "close"}) },
		tx:        w.tx,
		afterRead: w.point,
	}
	net.VerifListen = w.vn.Listen
	if s.Opts == nil {
		s.Opts = []OptJ{}
	}
	for i := range s.Opts {
		if s.Opts[i].IP == nil {
			s.Opts[i].IP = []int{}
		}
	}
	if s.IP == nil {
		s.IP = []int{}
	}
	optsJ := append([]OptJ{}, s.Opts...)
	for i := range optsJ {
		optsJ[i].V = clamp(optsJ[i].V)
	}
	h := M{"ev": "begin", "unit": map[bool]string{true: "ns", false: "us"}[s.Unit == "ns"], "s": s.ID, "kind": s.Kind, "ip": s.IP, "opts": optsJ, "style": s.Style}
	for k, v := range s.Hdr {
		h[k] = v
	}
	ip := mkIP(s.IP, s.IP16)
	if s.Kind == "ctrl" {
		var opts []artnet.Option
		for _, o := range s.Opts {
			opts = append(opts, w.ctrlOpt(o))
		}
		w.ctl = artnet.NewController(s.Name, ip, w.logger(), opts...)
		c := CfgJ{Name: strInts(s.Name), Style: 1, IP: s.IP, Manufacturer: []int{}, Description: []int{}, Report: []int{}, Mac: []int{}, BindIP: []int{}, Inputs: []PortJ{}, Outputs: []PortJ{}}
		if c.IP == nil {
			c.IP = []int{}
		}
		h["cfg"] = c
	} else {
		var opts []artnet.NodeOption
		for _, o := range s.Opts {
			opts = append(opts, w.nodeOpt(o))
		}
		w.node = artnet.NewNode(s.Name, code.StyleCode(s.Style), ip, w.logger(), opts...)
		if s.Cfg != nil {
			w.node.Config = s.Cfg.Config()
		}
		h["cfg"] = cfgDump(w.node.Config)
	}
	w.put(h)
	for _, o := range s.Ops {
		if d := time.Duration(o.At)*w.unit - time.Since(w.t0); d > 0 {
			time.Sleep(d)
		}
		if !w.do(o) {
			return false
		}
	}
	return w.finish()
}

func (w *world) do(o OpJ) bool {
	beat.Add(1)
	switch o.Op {
	case "start":
		return w.call("start", M{}, w.start)
	case "stop":
		inStall.Store(false) // Stop has to return all the same
		return w.call("stop", M{}, w.stop)
	case "stopat": // Stop when the library passes its n-th scheduling point from now
		w.logMu.Lock()
		w.stopAt = w.logCount + o.N
		w.stopCh = make(chan struct{})
		w.stopOnce = sync.Once{}
		w.logMu.Unlock()
		w.lockPts.Store(true)
		ch := w.stopCh
		w.calls.Add(1)
		go func() {
			defer w.calls.Done()
			<-ch
			w.put(M{"ev": "stop_call"})
			m := w.stop()
			m["ev"] = "stop_ret"
			w.put(m)
		}()
	case "stopjoin": // the stop requested before, at the latest now
		w.stopOnce.Do(func() { close(w.stopCh) })
		done := make(chan struct{})
		go func() { w.calls.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(w.patience()):
			w.put(M{"ev": "hang", "what": "stop"})
			return false
		}
	case "snap":
		w.snap()
	case "adv":
	case "mark":
		w.put(M{"ev": "mark", "k": o.K})
	case "quiet":
		synctest.Wait()
		w.put(M{"ev": "quiet"})
	case "rx", "rerr":
		w.inject(o)
		if o.On {
			synctest.Wait()
		}
	case "burst":
		for _, x := range o.List {
			w.inject(x)
		}
	case "write":
		d := w.frame(o.Frame)
		a := addr(o.A)
		return w.call("write", M{"a": o.A, "frame": o.Frame}, func() M { w.ctl.SendDMXToAddress(d, a); return M{"a": o.A, "frame": o.Frame} })
	case "par":
		return w.par(o)
	case "parjoin":
		for _, d := range w.pars {
			if !w.join(d) {
				return false
			}
		}
		w.pars = nil
	case "stall":
		w.vn.mu.Lock()
		if o.On {
			w.vn.stall = make(chan struct{})
		} else if w.vn.stall != nil {
			close(w.vn.stall)
			w.vn.stall = nil
		}
		w.vn.mu.Unlock()
		inStall.Store(o.On)
		w.put(M{"ev": "stall", "on": o.On})
	case "slownet":
		w.vn.mu.Lock()
		w.vn.realStall = time.Duration(o.N) * time.Microsecond
		w.vn.mu.Unlock()
	case "werr":
		w.vn.mu.Lock()
		w.vn.werr += o.N
		w.vn.mu.Unlock()
		w.put(M{"ev": "werr", "n": o.N})
	case "listenfail":
		w.vn.mu.Lock()
		w.vn.failListen = o.N
		w.vn.mu.Unlock()
	case "regstop": // a callback that stops the node
		cb := w.callback(o.K, false)
		w.node.RegisterCallback(code.OpCode(o.Code), func(p packet.ArtNetPacket) {
			cb(p)
			w.put(M{"ev": "stop_call"})
			m := w.stop()
			m["ev"] = "stop_ret"
			w.put(m)
		})
		w.put(M{"ev": "reg", "code": o.Code, "k": o.K})
	case "reg":
		w.node.RegisterCallback(code.OpCode(o.Code), w.callback(o.K, o.On))
		w.put(M{"ev": "reg", "code": o.Code, "k": o.K})
	case "dereg":
		w.node.DeregisterCallback(code.OpCode(o.Code))
		w.put(M{"ev": "dereg", "code": o.Code})
	case "release":
		close(w.gate)
		w.gate = make(chan struct{})
	case "opt":
		if o.Opt.IP == nil {
			o.Opt.IP = []int{}
		}
		var err error
		if w.ctl != nil {
			err = w.ctl.SetOption(w.ctrlOpt(*o.Opt))
		} else {
			err = w.node.SetOption(w.nodeOpt(*o.Opt))
		}
		w.put(M{"ev": "opt", "o": o.Opt.O, "v": clamp(o.Opt.V), "ip": o.Opt.IP, "port": o.Opt.Port, "ok": err == nil})
	case "setcfg":
		w.node.Config = o.Cfg.Config()
		w.put(M{"ev": "setcfg", "cfg": cfgDump(w.node.Config)})
	case "perturb":
		w.pert.Store(int64(o.N))
		w.lockPts.Store(o.N > 0)
	default:
		panic("harness: op " + o.Op)
	}
	return true
}

// par runs sequences of SendDMXToAddress calls concurrently.
func (w *world) par(o OpJ) bool {
	var wg sync.WaitGroup
	data := map[int][512]byte{}
	for _, cs := range o.Calls {
		for _, c := range cs {
			data[c.Frame] = w.frame(c.Frame)
		}
	}
	goCh := make(chan struct{})
	for g, cs := range o.Calls {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-goCh
			for i, c := range cs {
				id := fmt.Sprintf("%d.%d", g, i)
				if !w.s.Quiet {
					w.put(M{"ev": "pcall", "id": id, "a": c.A, "frame": c.Frame})
				}
				w.ctl.SendDMXToAddress(data[c.Frame], addr(c.A))
				if !w.s.Quiet {
					w.put(M{"ev": "pret", "id": id, "a": c.A})
				}
			}
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	close(goCh)
	if o.On { // parjoin waits for it
		w.pars = append(w.pars, done)
		return true
	}
	return w.join(done)
}

func (w *world) join(done chan struct{}) bool {
	select {
	case <-done:
		return true
	case <-time.After(w.patience()):
		w.put(M{"ev": "hang", "what": "write"})
		return false
	}
}

// finish stops whatever still runs and looks for leftovers.
func (w *world) finish() bool {
	if w.vn.stall != nil {
		w.do(OpJ{Op: "stall"})
	}
	close(w.gate)
	w.put(M{"ev": "finish"})
	if !w.call("stop", M{}, w.stop) {
		return false
	}
	synctest.Wait()
	if w.unit == time.Microsecond {
		time.Sleep(10 * time.Second)
	} else {
		time.Sleep(time.Millisecond)
	}
	synctest.Wait()
	left := libGoroutines()
	w.put(M{"ev": "end", "s": w.s.ID, "left": len(left), "open": w.vn.openCount()})
	if len(left) > 0 {
		fmt.Fprintf(os.Stderr, "VERIF-LEFT script=%s\n%s\n", w.s.ID, strings.Join(left, "\n\n"))
		return false
	}
	return true
}

// watchdog ends the process when nothing at all happens any more.
func watchdog(rec *Rec, limit time.Duration) {
	last, since := int64(-1), time.Now()
	for {
		time.Sleep(250 * time.Millisecond)
		if b := beat.Load(); b != last {
			last, since = b, time.Now()
			continue
		}
		if time.Since(since) < limit {
			continue
		}
		buf := make([]byte, 1<<22)
		one := append([]byte(nil), buf[:runtime.Stack(buf, true)]...)
		time.Sleep(2 * time.Second)
		if beat.Load() != last {
			continue
		}
		two := buf[:runtime.Stack(buf, true)]
		fmt.Fprintf(os.Stderr, "VERIF-WEDGE script=%v stall=%v\n=== first dump\n%s\n=== second dump\n%s\n", curSt.Load(), inStall.Load(), one, two)
		os.Exit(42)
	}
}

func TestWorld(t *testing.T) {
	out := os.Getenv("VH_OUT")
	rec := NewRec(out)
	defer rec.Close()
	lp := lockPoint
	sync.VerifPoint.Store(&lp)
	cat, dmp := newCatalog(out+".cat"), newCatalog(out+".dump")
	in, err := os.Open(os.Getenv("VH_SCRIPTS"))
	if err != nil {
		t.Fatal(err)
	}
	sc := bufio.NewScanner(in)
	sc.Buffer(nil, 1<<26)
	from := envInt("VH_FROM", 0)
	go watchdog(rec, time.Duration(envInt("VH_WATCHDOG", 20))*time.Second)
	for i := 0; sc.Scan(); i++ {
		if i < from {
			continue
		}
		var s ScriptJ
		if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
			t.Fatalf("script %d: %v", i, err)
		}
		curSt.Store(s.ID)
		inStall.Store(false)
		fmt.Fprintf(os.Stderr, "VERIF-SCRIPT %d %s\n", i, s.ID)
		ok := false
		synctest.Test(t, func(t *testing.T) {
			w := &world{s: &s, rec: rec, cat: cat, dmp: dmp, unit: time.Microsecond,
				rng: rand.New(rand.NewSource(int64(envInt("VH_SEED", 1))*1000003 + int64(i)))}
			if s.Unit == "ns" {
				w.unit = time.Nanosecond
			}
			ok = w.run()
			if !ok {
				rec.Flush()
				os.Exit(43) // the bubble cannot be left in order
			}
		})
		rec.Flush()
	}
	fmt.Fprintln(os.Stderr, "VERIF-DONE")
}
