property = 'C25'
needs = 'problem A, then problem B, then problem A again'
breaks = 'a problem that was reported before another one is not reported when it comes back'
edits = [
    ('sinksmtp.go',
     r"""	var lastmsg string
	for {
		nmsg := <-uniquer
		if nmsg != lastmsg {""",
     r"""	seen := make(map[string]bool)
	for {
		nmsg := <-uniquer
		if !seen[nmsg] {"""),
    ('sinksmtp.go',
     r"""			lastmsg = nmsg
""",
     r"""			seen[nmsg] = nmsg != ""
"""),
]
demo = r"""
write("rules", "accept all\n")
d = Daemon("-force-receive", "-r", "rules")
n = []
for r in ["reject\n", "reject from\n", "reject\n"]:
    write("rules", r)
    s = d.session(); s.quit(); time.sleep(0.2)
    n.append(d.stderr().count("problem loading rules"))
check(n == [1, 2, 3], "messages printed: %s" % n)
"""
