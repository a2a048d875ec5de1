package h

import (
	"errors"
	"net"
	"os"
	"sync"
	"syscall"
	"time"
)

// item is a datagram (or read error) on its way to a socket.
type item struct {
	b    []byte
	from net.UDPAddr
	err  error
}

// VNet is the in-memory network of one script.
type VNet struct {
	mu         sync.Mutex
	eps        []*Ep
	failListen int
	stall      chan struct{} // writes wait for it to be closed
	realStall  time.Duration // every write takes this long in real (not virtual) time
	werr       int           // this many writes fail
	werrs      int           // kind counter
	listen     func(network string, la net.UDPAddr, ok bool)
	closed     func(ep *Ep)
	tx         func(ep *Ep, b []byte, to net.UDPAddr, ok bool)
	afterRead  func()
	quiet      bool // only swallow datagrams: no locks between the routines using the socket
}

// Ep is one bound socket.
type Ep struct {
	n    *VNet
	la   net.UDPAddr
	in   chan item
	done chan struct{}
	once sync.Once
	dl   time.Time     // read deadline
	dlCh chan struct{} // closed when the deadline changes
}

var writeErrs = []error{
	os.NewSyscallError("sendto", syscall.ENETUNREACH),
	os.NewSyscallError("sendto", syscall.ENOBUFS),
	os.NewSyscallError("sendto", syscall.EPERM),
	os.NewSyscallError("sendto", syscall.EHOSTUNREACH),
}

var readErrs = []error{
	os.NewSyscallError("recvfrom", syscall.ECONNREFUSED),
	os.NewSyscallError("recvfrom", syscall.ENETDOWN),
	os.NewSyscallError("recvfrom", syscall.ENOMEM),
	os.ErrDeadlineExceeded,
	errors.New("verif: read error"),
}

func (n *VNet) Listen(network string, la net.UDPAddr) (net.VerifEndpoint, net.UDPAddr, error) {
	n.mu.Lock()
	if n.failListen > 0 {
		n.failListen--
		n.mu.Unlock()
		n.listen(network, la, false)
		return nil, la, os.NewSyscallError("bind", syscall.EADDRINUSE)
	}
	// a port can be bound once only
	for _, e := range n.eps {
		if e.open() && e.la.Port == la.Port && e.la.IP.Equal(la.IP) {
			n.mu.Unlock()
			n.listen(network, la, false)
			return nil, la, os.NewSyscallError("bind", syscall.EADDRINUSE)
		}
	}
	e := &Ep{n: n, la: la, in: make(chan item, 8192), done: make(chan struct{})}
	n.eps = append(n.eps, e)
	n.mu.Unlock()
	n.listen(network, la, true)
	return e, la, nil
}

func (e *Ep) open() bool {
	select {
	case <-e.done:
		return false
	default:
		return true
	}
}

// current is the open socket, if any.
func (n *VNet) current() *Ep {
	n.mu.Lock()
	defer n.mu.Unlock()
	for i := len(n.eps) - 1; i >= 0; i-- {
		if n.eps[i].open() {
			return n.eps[i]
		}
	}
	return nil
}

func (n *VNet) openCount() int {
	n.mu.Lock()
	defer n.mu.Unlock()
	k := 0
	for _, e := range n.eps {
		if e.open() {
			k++
		}
	}
	return k
}

func (e *Ep) ReadFrom(b []byte) (int, net.UDPAddr, error) {
	if !e.open() {
		return 0, net.UDPAddr{}, net.ErrClosed
	}
	if e.n.quiet {
		select {
		case <-e.done:
			return 0, net.UDPAddr{}, net.ErrClosed
		case it := <-e.in:
			if it.err != nil {
				return 0, net.UDPAddr{}, it.err
			}
			return copy(b, it.b), it.from, nil
		}
	}
again:
	e.n.mu.Lock()
	if e.dlCh == nil {
		e.dlCh = make(chan struct{})
	}
	dl, changed := e.dl, e.dlCh
	e.n.mu.Unlock()
	var expired <-chan time.Time
	if !dl.IsZero() {
		d := time.Until(dl)
		if d <= 0 {
			return 0, net.UDPAddr{}, os.ErrDeadlineExceeded
		}
		tm := time.NewTimer(d)
		defer tm.Stop()
		expired = tm.C
	}
	select {
	case <-changed:
		goto again
	case <-expired:
		return 0, net.UDPAddr{}, os.ErrDeadlineExceeded
	case <-e.done:
		return 0, net.UDPAddr{}, net.ErrClosed
	case it := <-e.in:
		if e.n.afterRead != nil {
			e.n.afterRead()
		}
		if it.err != nil {
			return 0, net.UDPAddr{}, it.err
		}
		return copy(b, it.b), it.from, nil
	}
}

func (e *Ep) WriteTo(b []byte, to net.UDPAddr) (int, error) {
	if !e.open() {
		return 0, net.ErrClosed
	}
	if e.n.quiet {
		return len(b), nil
	}
	e.n.mu.Lock()
	st := e.n.stall
	rs := e.n.realStall
	e.n.mu.Unlock()
	if rs > 0 {
		realSleep(rs)
	}
	if st != nil {
		select {
		case <-st:
		case <-e.done:
			return 0, net.ErrClosed
		}
	}
	if !e.open() {
		return 0, net.ErrClosed
	}
	e.n.mu.Lock()
	var err error
	if e.n.werr > 0 {
		e.n.werr--
		e.n.werrs++
		err = writeErrs[e.n.werrs%len(writeErrs)]
	}
	e.n.mu.Unlock()
	e.n.tx(e, b, to, err == nil)
	if err != nil {
		return 0, err
	}
	return len(b), nil
}

func (e *Ep) SetReadDeadline(t time.Time) error {
	e.n.mu.Lock()
	defer e.n.mu.Unlock()
	e.dl = t
	if e.dlCh != nil {
		close(e.dlCh)
		e.dlCh = nil
	}
	return nil
}

func (e *Ep) Close() error {
	first := false
	e.once.Do(func() {
		first = true
		close(e.done)
	})
	if !first {
		return net.ErrClosed
	}
	e.n.closed(e)
	return nil
}

// realSleep blocks in the kernel: virtual time stands still meanwhile.
func realSleep(d time.Duration) {
	ts := syscall.NsecToTimespec(int64(d))
	syscall.Nanosleep(&ts, nil)
}
