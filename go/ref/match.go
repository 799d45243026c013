package ref

import (
	"net"
	"sort"
	"strings"
	"time"
)

// MatchAddr matches an address against a (lower case) address pattern.
func MatchAddr(addr, pat string) bool {
	addr = strings.ToLower(addr)
	if addr == "" {
		return pat == "<>"
	}
	if addr[0] == '@' || addr[len(addr)-1] == '@' {
		return false // not matched by any pattern
	}
	if addr == pat {
		return true
	}
	local, domain, hasat := strings.Cut(addr, "@")
	if !hasat {
		return pat == local+"@"
	}
	switch {
	case pat == "@", pat == local+"@", pat == "@"+domain:
		return true
	case strings.HasPrefix(pat, "@."):
		return domain == pat[2:] || strings.HasSuffix(domain, pat[1:])
	}
	return false
}

// MatchHost matches a host name against a (lower case) hostname pattern.
// Names from DNS end in a '.', which does not count unless the pattern has it too.
func MatchHost(host, pat string) bool {
	host = strings.ToLower(host)
	if host == "" || pat == "" {
		return false
	}
	if !strings.HasSuffix(pat, ".") {
		host = strings.TrimSuffix(host, ".")
	}
	if host == pat {
		return true
	}
	return pat[0] == '.' && (host == pat[1:] || strings.HasSuffix(host, pat))
}

// MatchIP matches an IP address against an address or a netblock.
func MatchIP(rip, pat string) bool {
	ip := net.ParseIP(rip)
	if ip == nil {
		return false
	}
	if p := net.ParseIP(pat); p != nil {
		return ip.Equal(p)
	}
	_, n, err := net.ParseCIDR(pat)
	return err == nil && n.Contains(ip)
}

// AddrAttrs gives the attributes of an address. domain gives the status of a
// domain: resolves, baddom or unknown.
func AddrAttrs(a string, domain func(string) string) map[string]bool {
	m := map[string]bool{}
	if a == "" {
		return m
	}
	at := strings.IndexByte(a, '@')
	first, last := a[0], a[len(a)-1]
	if at < 0 {
		m["noat"] = true
	} else {
		if first == '@' {
			if strings.Count(a, "@") > 1 {
				m["route"] = true
			} else {
				m["garbage"] = true
			}
		}
		if !strings.Contains(a[at:], ".") {
			m["unqualified"] = true
		}
	}
	if first == '<' || strings.IndexByte(`>"].`, last) >= 0 || at == len(a)-1 ||
		strings.Contains(a, "..") || strings.Contains(a, "@@") {
		m["garbage"] = true
	}
	if q := strings.IndexByte(a, '"'); q >= 0 && q < len(a)-1 {
		m["quoted"] = true
	}
	if !m["noat"] && !m["route"] && !m["garbage"] && !m["unqualified"] {
		m[domain(a[at+1:])] = true
	}
	if m["noat"] || m["route"] || m["garbage"] || m["unqualified"] {
		m["bad"] = true
	}
	return m
}

// HeloAttrs gives the attributes of a HELO or EHLO command.
func HeloAttrs(verb, name, rip, lip string) map[string]bool {
	m := map[string]bool{strings.ToLower(verb): true}
	switch name {
	case "":
		m["none"], m["nodots"] = true, true
		return m
	case ".":
		m["bogus"], m["nodots"] = true, true
		return m
	}
	if !strings.ContainsAny(name, ".:") {
		m["nodots"] = true
	}
	ip := net.ParseIP(name)
	if ip != nil {
		m["bareip"] = true
	} else if len(name) > 2 && name[0] == '[' && name[len(name)-1] == ']' {
		if ip = net.ParseIP(name[1 : len(name)-1]); ip != nil {
			m["properip"] = true
		}
	}
	if ip != nil {
		m["ip"] = true
		switch {
		case ip.Equal(net.ParseIP(rip)):
			m["remip"] = true
		case ip.Equal(net.ParseIP(lip)):
			m["myip"] = true
		default:
			m["otherip"] = true
		}
	}
	return m
}

// RDNS is the result of looking up the names of an IP address.
type RDNS struct{ Verified, NoFwd, Inconsist []string }

// DNSAttrs gives the attributes of the reverse DNS.
func DNSAttrs(r RDNS) map[string]bool {
	m := map[string]bool{}
	if len(r.Verified) == 0 {
		m["nodns"] = true
	} else {
		m["exists"] = true
	}
	if len(r.NoFwd) > 0 {
		m["noforward"] = true
	}
	if len(r.Inconsist) > 0 {
		m["inconsistent"] = true
	}
	if m["exists"] && !m["noforward"] && !m["inconsistent"] {
		m["good"] = true
	}
	return m
}

// MX is an MX record.
type MX struct {
	Host string
	Pref uint16
}

// World is the outside world: DNS and pattern files. DNS names are without the
// trailing dot. An entry in Err ("A name", "MX name", "PTR ip") makes that
// lookup fail: "servfail", "servfailtemp", "timeout" or "other". What is not
// there does not exist.
type World struct {
	PTR map[string][]string
	A   map[string][]string
	MX  map[string][]MX
	TXT map[string][]string
	Err map[string]string
	// Slow is how long a lookup takes, by the names that Err has.
	Slow map[string]time.Duration
	// Search makes every name without a final dot that does not exist resolve
	// through the resolver's search list.
	Search bool
	Files  map[string][]string // patterns in pattern files, by name as used in rules
}

func (w *World) listed(name string) bool {
	name = strings.TrimSuffix(strings.ToLower(name), ".")
	if w == nil || w.Err["A "+name] != "" {
		return false
	}
	return len(w.A[name]) > 0
}

func (w *World) temp(key string) bool {
	e := w.Err[key]
	return e == "servfail" || e == "servfailtemp" || e == "timeout"
}

// Lookup gives the reverse DNS of an IP address.
func (w *World) Lookup(ip string) (r RDNS) {
	if w == nil || w.Err["PTR "+ip] != "" {
		return
	}
	names := append([]string(nil), w.PTR[ip]...)
	sort.Strings(names)
	for _, n := range names {
		k := strings.TrimSuffix(strings.ToLower(n), ".")
		addrs := w.A[k]
		if w.Err["A "+k] != "" || len(addrs) == 0 {
			r.NoFwd = append(r.NoFwd, n)
			continue
		}
		ok := false
		for _, a := range addrs {
			ok = ok || net.ParseIP(a).Equal(net.ParseIP(ip))
		}
		if ok {
			r.Verified = append(r.Verified, n)
		} else {
			r.Inconsist = append(r.Inconsist, n)
		}
	}
	return
}

var private []*net.IPNet

func init() {
	for _, s := range []string{"10.0.0.0/8", "172.16.0.0/12", "192.168.0.0/16", "fc00::/7", "fec0::/10"} {
		_, n, _ := net.ParseCIDR(s)
		private = append(private, n)
	}
}

// hostStatus: can mail be delivered to this host?
func (w *World) hostStatus(name string) string {
	k := strings.TrimSuffix(strings.ToLower(name), ".")
	if w.temp("A " + k) {
		return "unknown"
	}
	if w.Err["A "+k] != "" || len(w.A[k]) == 0 {
		return "baddom"
	}
	for _, a := range w.A[k] {
		ip := net.ParseIP(a)
		if !ip.IsGlobalUnicast() {
			return "baddom"
		}
		for _, p := range private {
			if p.Contains(ip) {
				return "baddom"
			}
		}
	}
	return "resolves"
}

// Domain gives the status of a mail domain.
func (w *World) Domain(d string) string {
	if w == nil {
		return "baddom"
	}
	k := strings.TrimSuffix(strings.ToLower(d), ".")
	if w.temp("MX " + k) {
		return "unknown"
	}
	mxs := w.MX[k]
	if w.Err["MX "+k] != "" || len(mxs) == 0 {
		return w.hostStatus(d)
	}
	for _, m := range mxs {
		if h := strings.ToLower(m.Host); h == "." || h == "localhost." {
			return "baddom"
		}
	}
	best := "baddom"
	for _, m := range mxs {
		switch w.hostStatus(m.Host) {
		case "resolves":
			return "resolves"
		case "unknown":
			best = "unknown"
		}
	}
	return best
}
