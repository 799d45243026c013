property = 'C15'
needs = 'a TLS failure, a good TLS session and another failure'
breaks = 'a good TLS session forgets earlier TLS failures'
edits = [
    ('sinksmtp.go',
     r"""					events.tlson.Add(1)
""",
     r"""					events.tlson.Add(1)
					notls.Del(trans.rip)
"""),
]
demo = r"""
d = Daemon("-force-receive", *CERT)
def bad():
    s = d.session(src="127.0.0.10"); s.cmd("EHLO h"); check(s.badtls(), "STARTTLS"); time.sleep(0.3)
bad()
s = d.session(src="127.0.0.10"); s.cmd("EHLO h"); check(s.starttls(tlsctx()), "STARTTLS"); s.cmd("EHLO h"); s.quit()
bad()
s = d.session(src="127.0.0.10")
check("STARTTLS" not in s.cmd("EHLO h")[1], "TLS offered after two failures")
"""
