property = 'C20'
needs = 'a name that ends in a dot with a domain pattern that also ends in one'
breaks = 'the guard against names that end in a dot is gone'
edits = [('rules.go', r"""	if len(s.s) <= s.p {
		return ""
	}
	idx := strings.IndexByte(s.s[s.p+1:], '.')
	if idx == -1 {
""", r"""	idx := strings.IndexByte(s.s[s.p+1:], '.')
	if idx == -1 {
""")]
demo = r"""
write("rules", "reject helo .x.net\n")
d = Daemon("-force-receive", "-r", "rules")
for h in ".", "a.", "x.net.":
    s = d.session(); s.s.sendall(b"HELO " + h.encode() + b"\r\n"); s.read(); s.close()
time.sleep(0.3)
check(d.p.poll() is None, "crash")
s = d.session()
check(s.code("EHLO h") == 250, "crash")
"""
