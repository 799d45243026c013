property = 'C02'
needs = 'MAIL FROM:<> with a rule that stalls it'
breaks = 'a stall, unlike a reject, of the null sender is not deferred'
edits = [
    ('rules.go',
     r"""	if ph == pMfrom && c.from == "" && ret > aAccept {""",
     r"""	if ph == pMfrom && c.from == "" && ret > aStall {"""),
]
demo = r"""
write("rules", "stall from <>\nreject from bad@b.c\n")
d = Daemon("-force-receive", "-r", "rules")
s = d.session()
s.cmd("EHLO h")
check(s.code("MAIL FROM:<>") == 250, "null sender refused")
check(s.code("RCPT TO:<x@b.c>") == 450, "recipient not stalled")
"""
