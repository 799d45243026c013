property = 'C05'
needs = 'a rule with an IPv4-mapped IPv6 netblock and an IPv4 client'
breaks = 'ip does not match an IPv4 client in a netblock written in IPv6 notation'
edits = [
    ('rules.go',
     r"""	_, ipn, err := net.ParseCIDR(cidr)
	if err != nil {
		return false
	}
	return ipn.Contains(ip)""",
     r"""	_, ipn, err := net.ParseCIDR(cidr)
	if err != nil {
		return false
	}
	return strings.Contains(rip, ":") == strings.Contains(cidr, ":") && ipn.Contains(ip)"""),
]
demo = r"""
write("rules", "reject ip ::ffff:127.0.0.0/104\n")
d = Daemon("-force-receive", "-r", "rules")
s = d.session()
s.cmd("EHLO h")
try: c = s.code("EHLO h")
except OSError: c = 0
check(c == 550 or c == 0, "client in the (mapped) netblock not refused: %d" % c)
"""
