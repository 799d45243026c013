property = 'C15'
needs = 'a rule with tls-opt off that first matches after an earlier phase was accepted'
breaks = 'tls-opt off only works at connection time'
edits = [
    ('sinksmtp.go',
     r"""	case "off":
		convo.Config.TLSConfig = nil
""",
     r"""	case "off":
		if ph == pConnect || !trans.lastresgood {
			convo.Config.TLSConfig = nil
		}
"""),
]
demo = r"""
write("rules", "@helo set-with helo nope.example with tls-opt off\n")
d = Daemon("-force-receive", "-r", "rules", *CERT)
s = d.session()
check("STARTTLS" in s.cmd("EHLO ok.example")[1], "TLS not offered")
check("STARTTLS" not in s.cmd("EHLO nope.example")[1], "TLS offered although turned off")
"""
