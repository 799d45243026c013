property = 'C28'
needs = 'a reverse DNS name that changes while the daemon runs'
breaks = 'the reverse name of a local address is looked up once only'
edits = [('sinksmtp.go', r"""		nlst, err := net.LookupAddr(lip)
		if err == nil && len(nlst) > 0 {
""", r"""		nlst, err := localNames(lip)
		if err == nil && len(nlst) > 0 {
"""), ('sinksmtp.go', r"""// Process a single connection.
""", r"""var lnames struct {
	sync.Mutex
	m map[string][]string
}

func localNames(lip string) ([]string, error) {
	lnames.Lock()
	defer lnames.Unlock()
	if l := lnames.m[lip]; l != nil {
		return l, nil
	}
	l, err := net.LookupAddr(lip)
	if err == nil && len(l) > 0 {
		if lnames.m == nil {
			lnames.m = make(map[string][]string)
		}
		lnames.m[lip] = l
	}
	return l, err
}

// Process a single connection.
""")]
demo = r"""
data = {("5.0.0.127.in-addr.arpa.", "PTR"): ["one.example."]}
dns = DNS(data)
d = Daemon("-force-receive", "-helo", "", dns=dns, host="127.0.0.5")
s = d.session(); check(s.greeting[1][0].startswith("one.example"), "name"); s.quit()
data[("5.0.0.127.in-addr.arpa.", "PTR")] = ["two.example."]
s = d.session(); check(s.greeting[1][0].startswith("two.example"), "old name")
"""
