package checks

import (
	"errors"
	"net"
	"os"
	"strings"
	"time"

	"verif/ref"
	"verif/vrt"
)

func dnsErr(kind, name string) error {
	switch kind {
	case "servfail":
		return vrt.ServFail(name, false)
	case "servfailtemp":
		return vrt.ServFail(name, true)
	case "timeout":
		return vrt.Timeout(name)
	case "other":
		return &net.DNSError{Err: "cannot unmarshal DNS message", Name: name}
	case "plain":
		return errors.New("something else")
	}
	return vrt.NoSuchHost(name)
}

// UseWorld makes the outside world be w, for the program and for the model.
func (w *W) UseWorld(x *ref.World) {
	w.D.W = x
	InstallDNS(x)
	for fn, pats := range x.Files {
		if pats == nil {
			os.Remove(fn)
			continue
		}
		writeFile(fn, strings.Join(pats, "\n")+"\n")
	}
}

// InstallDNS makes DNS answer from a world.
func InstallDNS(x *ref.World) {
	key := func(n string) string { return strings.TrimSuffix(strings.ToLower(n), ".") }
	nap := func(k string) {
		if d := x.Slow[k]; d > 0 {
			time.Sleep(d)
		}
	}
	vrt.SetDNS(vrt.DNSServer{
		Addr: func(ip string) ([]string, error) {
			nap("PTR " + ip)
			if e := x.Err["PTR "+ip]; e != "" {
				return nil, dnsErr(e, ip)
			}
			if l := x.PTR[ip]; len(l) > 0 {
				return l, nil
			}
			return nil, vrt.NoSuchHost(ip)
		},
		IP: func(n string) ([]net.IP, error) {
			k := key(n)
			nap("A " + k)
			if e := x.Err["A "+k]; e != "" {
				return nil, dnsErr(e, n)
			}
			var l []net.IP
			for _, a := range x.A[k] {
				l = append(l, net.ParseIP(a))
			}
			if len(l) == 0 {
				if x.Search && !strings.HasSuffix(n, ".") {
					return []net.IP{net.IPv4(203, 0, 113, 200)}, nil
				}
				return nil, vrt.NoSuchHost(n)
			}
			return l, nil
		},
		MX: func(n string) ([]*net.MX, error) {
			k := key(n)
			nap("MX " + k)
			if e := x.Err["MX "+k]; e != "" {
				return nil, dnsErr(e, n)
			}
			var l []*net.MX
			for _, m := range x.MX[k] {
				l = append(l, &net.MX{Host: m.Host, Pref: m.Pref})
			}
			if len(l) == 0 {
				if x.Search && !strings.HasSuffix(n, ".") {
					return []*net.MX{{Host: "mx.search.net.", Pref: 1}}, nil
				}
				return nil, vrt.NoSuchHost(n)
			}
			return l, nil
		},
		TXT: func(n string) ([]string, error) {
			k := key(n)
			nap("TXT " + k)
			if l := x.TXT[k]; len(l) > 0 {
				return l, nil
			}
			return nil, vrt.NoSuchHost(n)
		},
	})
}
