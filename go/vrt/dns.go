package vrt

import (
	"context"
	"net"
	"strings"
	"sync"
)

// DNSServer answers lookups. A nil func means 'no such host' for everything.
type DNSServer struct {
	Addr func(ip string) ([]string, error)
	IP   func(name string) ([]net.IP, error)
	MX   func(name string) ([]*net.MX, error)
	TXT  func(name string) ([]string, error)
}

var dnsmu sync.Mutex
var dns DNSServer

// SetDNS installs the answers to DNS lookups.
func SetDNS(d DNSServer) { dnsmu.Lock(); dns = d; dnsmu.Unlock() }
func getDNS() DNSServer  { dnsmu.Lock(); defer dnsmu.Unlock(); return dns }

// NoSuchHost is the error for a name that does not exist.
func NoSuchHost(name string) error {
	return &net.DNSError{Err: "no such host", Name: name, IsNotFound: true}
}

// ServFail is the error for a server failure; temp is how modern Go marks it,
// older Go does not.
func ServFail(name string, temp bool) error {
	return &net.DNSError{Err: "server misbehaving", Name: name, IsTemporary: temp}
}

// Timeout is the error for a DNS timeout.
func Timeout(name string) error {
	return &net.DNSError{Err: "i/o timeout", Name: name, IsTimeout: true, IsTemporary: true}
}

func LookupAddr(ip string) ([]string, error) {
	if f := getDNS().Addr; f != nil {
		r, e := f(ip)
		return append([]string(nil), r...), e
	}
	return nil, NoSuchHost(ip)
}

func LookupIP(name string) ([]net.IP, error) {
	// A literal address needs no DNS, as in the real resolver.
	if ip := net.ParseIP(name); ip != nil {
		return []net.IP{ip}, nil
	}
	if name == "" {
		return nil, NoSuchHost(name)
	}
	if f := getDNS().IP; f != nil {
		r, e := f(name)
		return append([]net.IP(nil), r...), e
	}
	return nil, NoSuchHost(name)
}

func LookupHost(name string) ([]string, error) {
	ips, err := LookupIP(name)
	if err != nil {
		return nil, err
	}
	var r []string
	for _, i := range ips {
		r = append(r, i.String())
	}
	return r, nil
}

func LookupMX(name string) ([]*net.MX, error) {
	if f := getDNS().MX; f != nil {
		r, e := f(name)
		return append([]*net.MX(nil), r...), e
	}
	return nil, NoSuchHost(name)
}

func LookupTXT(name string) ([]string, error) {
	if f := getDNS().TXT; f != nil {
		r, e := f(name)
		return append([]string(nil), r...), e
	}
	return nil, NoSuchHost(name)
}

// Resolver stands in for net.Resolver.
type Resolver struct {
	PreferGo     bool
	StrictErrors bool
	Dial         func(ctx context.Context, network, address string) (net.Conn, error)
}

// DefaultResolver stands in for net.DefaultResolver.
var DefaultResolver = &Resolver{}

// within makes a lookup end when its context does.
func within[T any](ctx context.Context, a string, f func(string) (T, error)) (r T, err error) {
	if ctx.Done() == nil {
		return f(a)
	}
	if ctx.Err() != nil {
		return r, Timeout(a)
	}
	type res struct {
		r T
		e error
	}
	c := make(chan res, 1)
	go func() {
		r, e := f(a)
		c <- res{r, e}
	}()
	select {
	case x := <-c:
		return x.r, x.e
	case <-ctx.Done():
		return r, Timeout(a)
	}
}

func (*Resolver) LookupAddr(c context.Context, a string) ([]string, error) {
	return within(c, a, LookupAddr)
}
func (*Resolver) LookupHost(c context.Context, a string) ([]string, error) {
	return within(c, a, LookupHost)
}
func (*Resolver) LookupMX(c context.Context, a string) ([]*net.MX, error) {
	return within(c, a, LookupMX)
}
func (*Resolver) LookupTXT(c context.Context, a string) ([]string, error) {
	return within(c, a, LookupTXT)
}
func (*Resolver) LookupIP(c context.Context, network, a string) ([]net.IP, error) {
	ips, err := within(c, a, LookupIP)
	if err != nil {
		return nil, err
	}
	var r []net.IP
	for _, i := range ips {
		is4 := i.To4() != nil
		if network == "ip" || (network == "ip4" && is4) || (network == "ip6" && !is4) {
			r = append(r, i)
		}
	}
	if len(r) == 0 {
		return nil, NoSuchHost(a)
	}
	return r, nil
}
func (*Resolver) LookupIPAddr(c context.Context, a string) ([]net.IPAddr, error) {
	ips, err := within(c, a, LookupIP)
	var r []net.IPAddr
	for _, i := range ips {
		r = append(r, net.IPAddr{IP: i})
	}
	return r, err
}

// Fqdn adds the trailing dot.
func Fqdn(s string) string {
	if strings.HasSuffix(s, ".") {
		return s
	}
	return s + "."
}
