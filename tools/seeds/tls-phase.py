property = 'C29'
needs = "a rule with 'tls' in an alternative, and nothing else that needs MAIL FROM"
breaks = "a rule with 'tls' on the right of 'or' is used before TLS can be on"
edits = [('rparse.go', r"""	// set phase requirement, if any.
	if minReq[ct] != pAny && minReq[ct] > p.currule.requires {
		p.currule.requires = minReq[ct]
	}
""", r"""	// set phase requirement, if any.
	if minReq[ct] > p.currule.requires && !(ct == itemTls && p.currule.requires > pAny) {
		p.currule.requires = minReq[ct]
	}
""")]
demo = r"""
write("rules", "reject helo bad.net or tls off\n")
d = Daemon("-force-receive", "-r", "rules", *CERT)
s = d.session()
check(s.code("EHLO h") == 250, "tls off matched at EHLO")
check(s.code("MAIL FROM:<a@b.c>") == 550, "tls off at MAIL FROM")
"""
