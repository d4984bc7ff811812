// Package net stands in for the standard net package in the repository's
// network-facing packages: addresses are the real types, sockets are in
// memory, and the harness decides what arrives, what fails and when.
package net

import (
	"context"
	"errors"
	"io"
	"net/netip"
	"os"
	"strconv"
	"syscall"
	"time"

	real "net"

	"github.com/jart/gosip/zzv/v"
)

type (
	IP                  = real.IP
	IPMask              = real.IPMask
	IPNet               = real.IPNet
	Addr                = real.Addr
	UDPAddr             = real.UDPAddr
	TCPAddr             = real.TCPAddr
	OpError             = real.OpError
	DNSError            = real.DNSError
	AddrError           = real.AddrError
	Conn                = real.Conn
	PacketConn          = real.PacketConn
	Error               = real.Error
	SRV                 = real.SRV
	Listener            = real.Listener
	ParseError          = real.ParseError
	UnknownNetworkError = real.UnknownNetworkError
	InvalidAddrError    = real.InvalidAddrError
	IPAddr              = real.IPAddr
	UnixAddr            = real.UnixAddr
	DNSConfigError      = real.DNSConfigError
	MX                  = real.MX
	NS                  = real.NS
	HardwareAddr        = real.HardwareAddr
	Flags               = real.Flags
	Interface           = real.Interface
)

const (
	IPv4len = real.IPv4len
	IPv6len = real.IPv6len
)

var (
	ErrClosed       = real.ErrClosed
	IPv4zero        = real.IPv4zero
	IPv6zero        = real.IPv6zero
	IPv4bcast       = real.IPv4bcast
	IPv6unspecified = real.IPv6unspecified
	IPv6loopback    = real.IPv6loopback
	IPv4allsys      = real.IPv4allsys
	IPv4allrouter   = real.IPv4allrouter
)

func ParseIP(s string) IP                                   { return real.ParseIP(s) }
func IPv4(a, b, c, d byte) IP                               { return real.IPv4(a, b, c, d) }
func JoinHostPort(host, port string) string                 { return real.JoinHostPort(host, port) }
func SplitHostPort(s string) (host, port string, err error) { return real.SplitHostPort(s) }
func IPv4Mask(a, b, c, d byte) IPMask                       { return real.IPv4Mask(a, b, c, d) }
func CIDRMask(ones, bits int) IPMask                        { return real.CIDRMask(ones, bits) }
func ParseCIDR(s string) (IP, *IPNet, error)                { return real.ParseCIDR(s) }
func UDPAddrFromAddrPort(a netip.AddrPort) *UDPAddr         { return real.UDPAddrFromAddrPort(a) }

// ---- the world the harness controls ----

// Packet is a datagram with the address it comes from or goes to.
type Packet struct {
	Data []byte
	Addr *UDPAddr
	Err  error
}

var (
	// LocalIP is the address of this machine.
	LocalIP string = "192.0.2.1"
	// NextPort is given to the next socket bound to port 0 or dialled.
	NextPort int = 20000
	// Conns are all sockets ever opened, in order.
	Conns []*UDPConn
	// DialErr, ListenErr, ResolveErr and SRVErr fail the calls when they
	// return an error.
	DialErr   func(addr string) error
	ListenErr func(addr string) error
	// Hosts resolves names; SRVs holds service records by domain.
	Hosts map[string]string
	SRVs  map[string][]*SRV
	// OnWrite is told about every packet written; a non-nil result fails the
	// write.
	OnWrite func(c *UDPConn, p Packet) error
	// Dialled lists every address given to Dial, Listened to ListenPacket.
	Dialled  []string
	Listened []string
)

// Reset forgets all sockets and settings.
func Reset() {
	LocalIP, NextPort = "192.0.2.1", 20000
	Conns, Dialled, Listened = nil, nil, nil
	DialErr, ListenErr, OnWrite = nil, nil, nil
	Hosts, SRVs = nil, nil
}

// UDPConn is an in-memory UDP socket.
type UDPConn struct {
	laddr, raddr *UDPAddr
	in           chan Packet
	moved        chan bool // the read deadline changed
	rd           time.Time
	done         chan bool
	closed       bool
	Closes       int
	// Sent records every packet the code wrote.
	Sent []Packet
	// Reads counts completed reads.
	Reads int
}

// NewUDPConn makes a socket the harness hands to the code under test.
func NewUDPConn(laddr, raddr *UDPAddr) *UDPConn {
	c := &UDPConn{laddr: laddr, raddr: raddr, in: make(chan Packet, 16), done: make(chan bool), moved: make(chan bool, 1)}
	Conns = append(Conns, c)
	return c
}

// Inject queues a datagram for reading.
func (c *UDPConn) Inject(data []byte, from *UDPAddr) { c.in <- Packet{Data: data, Addr: from} }

// InjectErr queues a read error.
func (c *UDPConn) InjectErr(err error) { c.in <- Packet{Err: err} }

// Closed reports whether the code closed the socket.
func (c *UDPConn) Closed() bool { return c.closed }

// Pending is the number of datagrams not read yet.
func (c *UDPConn) Pending() int { return len(c.in) }

func (c *UDPConn) opErr(op string, err error) error {
	return &OpError{Op: op, Net: "udp", Source: c.laddr, Addr: c.addr(), Err: err}
}

func (c *UDPConn) addr() Addr {
	if c.raddr == nil {
		return nil
	}
	return c.raddr
}

func (c *UDPConn) read(b []byte) (n int, addr *UDPAddr, err error) {
	n, addr, err = c.read1(b)
	v.Yield()
	return
}

func (c *UDPConn) read1(b []byte) (int, *UDPAddr, error) {
	if c == nil {
		return 0, nil, syscall.EINVAL
	}
	if c.closed {
		return 0, nil, c.opErr("read", ErrClosed)
	}
	for {
		var late <-chan time.Time
		if !c.rd.IsZero() {
			d := time.Until(c.rd)
			if d <= 0 {
				return 0, nil, c.opErr("read", os.ErrDeadlineExceeded)
			}
			late = time.After(d)
		}
		select {
		case p := <-c.in:
			c.Reads++
			if p.Err != nil {
				return 0, nil, c.opErr("read", p.Err)
			}
			return copy(b, p.Data), p.Addr, nil
		case <-c.done:
			return 0, nil, c.opErr("read", ErrClosed)
		case <-c.moved:
		case <-late:
		}
	}
}

func (c *UDPConn) ReadFromUDP(b []byte) (int, *UDPAddr, error) { return c.read(b) }

func (c *UDPConn) ReadFrom(b []byte) (int, Addr, error) {
	n, a, err := c.read(b)
	if a == nil {
		return n, nil, err
	}
	return n, a, err
}

func (c *UDPConn) Read(b []byte) (int, error) {
	n, _, err := c.read(b)
	return n, err
}

func (c *UDPConn) write(b []byte, to *UDPAddr) (int, error) {
	if c == nil {
		return 0, syscall.EINVAL
	}
	if c.closed {
		return 0, c.opErr("write", ErrClosed)
	}
	p := Packet{Data: append([]byte(nil), b...), Addr: to}
	if OnWrite != nil {
		if err := OnWrite(c, p); err != nil {
			return 0, c.opErr("write", err)
		}
	}
	c.Sent = append(c.Sent, p)
	return len(b), nil
}

func (c *UDPConn) Write(b []byte) (int, error) {
	if c != nil && c.raddr == nil {
		return 0, c.opErr("write", errors.New("destination address required"))
	}
	if c == nil {
		return 0, syscall.EINVAL
	}
	return c.write(b, c.raddr)
}

func (c *UDPConn) WriteTo(b []byte, a Addr) (int, error) {
	if c != nil && c.raddr != nil {
		return 0, c.opErr("write", errors.New("use of WriteTo with pre-connected connection"))
	}
	u, ok := a.(*UDPAddr)
	if !ok {
		return 0, c.opErr("write", syscall.EINVAL)
	}
	return c.WriteToUDP(b, u)
}

func (c *UDPConn) WriteToUDP(b []byte, a *UDPAddr) (int, error) {
	if c != nil && a == nil {
		return 0, c.opErr("write", errors.New("missing address"))
	}
	return c.write(b, a)
}

func (c *UDPConn) Close() error {
	if c == nil {
		return syscall.EINVAL
	}
	c.Closes++
	if c.closed {
		return c.opErr("close", ErrClosed)
	}
	c.closed = true
	close(c.done)
	v.Yield()
	return nil
}

func (c *UDPConn) LocalAddr() Addr {
	if c == nil {
		return nil
	}
	return c.laddr
}

func (c *UDPConn) RemoteAddr() Addr {
	if c == nil || c.raddr == nil {
		return nil
	}
	return c.raddr
}

func (c *UDPConn) SetDeadline(t time.Time) error      { return c.SetReadDeadline(t) }
func (c *UDPConn) SetWriteDeadline(t time.Time) error { return nil }
func (c *UDPConn) SetReadBuffer(n int) error          { return nil }
func (c *UDPConn) SetWriteBuffer(n int) error         { return nil }
func (c *UDPConn) File() (*os.File, error)            { return nil, io.EOF }

func (c *UDPConn) SetReadDeadline(t time.Time) error {
	if c == nil {
		return syscall.EINVAL
	}
	if c.closed {
		return c.opErr("set", ErrClosed)
	}
	c.rd = t
	select {
	case c.moved <- true:
	default:
	}
	return nil
}

func (c *UDPConn) ReadMsgUDP(b, oob []byte) (n, oobn, flags int, addr *UDPAddr, err error) {
	n, addr, err = c.read(b)
	return
}

func (c *UDPConn) WriteMsgUDP(b, oob []byte, addr *UDPAddr) (n, oobn int, err error) {
	if addr == nil {
		n, err = c.Write(b)
	} else {
		n, err = c.WriteToUDP(b, addr)
	}
	return
}

func (c *UDPConn) ReadFromUDPAddrPort(b []byte) (int, netip.AddrPort, error) {
	n, a, err := c.read(b)
	return n, a.AddrPort(), err
}

func (c *UDPConn) WriteToUDPAddrPort(b []byte, a netip.AddrPort) (int, error) {
	return c.WriteToUDP(b, real.UDPAddrFromAddrPort(a))
}

func resolve(addr string) (*UDPAddr, error) {
	host, port, err := SplitHostPort(addr)
	if err != nil {
		return nil, err
	}
	p, err := strconv.Atoi(port)
	if err != nil || p < 0 || p > 65535 {
		return nil, &AddrError{Err: "invalid port", Addr: port}
	}
	if host == "" {
		return &UDPAddr{Port: p}, nil
	}
	ip := ParseIP(host)
	if ip == nil {
		if s, ok := Hosts[host]; ok {
			ip = ParseIP(s)
		}
	}
	if ip == nil {
		return nil, &DNSError{Err: "no such host", Name: host, IsNotFound: true}
	}
	if v4 := ip.To4(); v4 != nil {
		ip = v4
	}
	return &UDPAddr{IP: ip, Port: p}, nil
}

func ResolveUDPAddr(network, addr string) (*UDPAddr, error) { return resolve(addr) }

func LookupSRV(service, proto, name string) (string, []*SRV, error) {
	if l, ok := SRVs[name]; ok {
		return "_" + service + "._" + proto + "." + name, l, nil
	}
	return "", nil, &DNSError{Err: "no such host", Name: name, IsNotFound: true}
}

func LookupHost(name string) ([]string, error) {
	if s, ok := Hosts[name]; ok {
		return []string{s}, nil
	}
	return nil, &DNSError{Err: "no such host", Name: name, IsNotFound: true}
}

func LookupIP(name string) ([]IP, error) {
	if ip := ParseIP(name); ip != nil {
		return []IP{ip}, nil
	}
	if s, ok := Hosts[name]; ok {
		return []IP{ParseIP(s)}, nil
	}
	return nil, &DNSError{Err: "no such host", Name: name, IsNotFound: true}
}

func LookupAddr(addr string) ([]string, error) {
	return nil, &DNSError{Err: "no such host", Name: addr, IsNotFound: true}
}

func LookupCNAME(name string) (string, error) { return name + ".", nil }

func LookupPort(network, service string) (int, error) {
	switch service {
	case "sip":
		return 5060, nil
	case "sips":
		return 5061, nil
	}
	p, err := strconv.Atoi(service)
	if err != nil || p < 0 || p > 65535 {
		return 0, &AddrError{Err: "invalid port", Addr: service}
	}
	return p, nil
}

func ResolveIPAddr(network, addr string) (*IPAddr, error) {
	l, err := LookupIP(addr)
	if err != nil {
		return nil, err
	}
	return &IPAddr{IP: l[0]}, nil
}

// Resolver resolves from the same tables.
type Resolver struct {
	PreferGo     bool
	StrictErrors bool
}

var DefaultResolver = &Resolver{}

func (r *Resolver) LookupHost(ctx context.Context, name string) ([]string, error) {
	return LookupHost(name)
}

func (r *Resolver) LookupSRV(ctx context.Context, service, proto, name string) (string, []*SRV, error) {
	return LookupSRV(service, proto, name)
}

func (r *Resolver) LookupIPAddr(ctx context.Context, name string) ([]IPAddr, error) {
	l, err := LookupIP(name)
	if err != nil {
		return nil, err
	}
	return []IPAddr{{IP: l[0]}}, nil
}

// Dialer and ListenConfig open the same sockets.
type Dialer struct {
	Timeout   time.Duration
	Deadline  time.Time
	LocalAddr Addr
	KeepAlive time.Duration
	Resolver  *Resolver
}

func (d *Dialer) Dial(network, addr string) (Conn, error) { return Dial(network, addr) }

func (d *Dialer) DialContext(ctx context.Context, network, addr string) (Conn, error) {
	return Dial(network, addr)
}

func DialTimeout(network, addr string, d time.Duration) (Conn, error) { return Dial(network, addr) }

type ListenConfig struct {
	Control   func(network, address string, c syscall.RawConn) error
	KeepAlive time.Duration
}

func (l *ListenConfig) ListenPacket(ctx context.Context, network, addr string) (PacketConn, error) {
	return ListenPacket(network, addr)
}

func port() int {
	p := NextPort
	NextPort += 2
	return p
}

func Dial(network, addr string) (Conn, error) {
	Dialled = append(Dialled, addr)
	if DialErr != nil {
		if err := DialErr(addr); err != nil {
			return nil, &OpError{Op: "dial", Net: network, Err: err}
		}
	}
	ra, err := resolve(addr)
	if err != nil {
		return nil, &OpError{Op: "dial", Net: network, Err: err}
	}
	return NewUDPConn(&UDPAddr{IP: ip4(LocalIP), Port: port()}, ra), nil
}

func ip4(s string) IP {
	ip := ParseIP(s)
	if v4 := ip.To4(); v4 != nil {
		return v4
	}
	return ip
}

func DialUDP(network string, laddr, raddr *UDPAddr) (*UDPConn, error) {
	c, err := Dial(network, raddr.String())
	if err != nil {
		return nil, err
	}
	return c.(*UDPConn), nil
}

func ListenPacket(network, addr string) (PacketConn, error) {
	Listened = append(Listened, addr)
	if ListenErr != nil {
		if err := ListenErr(addr); err != nil {
			return nil, &OpError{Op: "listen", Net: network, Err: err}
		}
	}
	la, err := resolve(addr)
	if err != nil {
		return nil, &OpError{Op: "listen", Net: network, Err: err}
	}
	if la.Port == 0 {
		la.Port = port()
	}
	if la.IP == nil {
		la.IP = ip4(LocalIP)
	}
	return NewUDPConn(la, nil), nil
}

func ListenUDP(network string, laddr *UDPAddr) (*UDPConn, error) {
	c, err := ListenPacket(network, laddr.String())
	if err != nil {
		return nil, err
	}
	return c.(*UDPConn), nil
}
