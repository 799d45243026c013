property = 'C01'
needs = 'a rule about recipients that first decides at the end of the message'
breaks = 'after DATA, rules about recipients are no longer tried for each recipient in the message phase'
edits = [
    ('rules.go',
     r"""		if ph > pRto && rp >= pRto {""",
     r"""		if ph == pData && rp >= pRto {"""),
]
demo = r"""
write("rules", "@message reject to victim@b.c\naccept all\n")
d = Daemon("-force-receive", "-r", "rules")
s = d.session()
check(s.msg("a@b.c", ["victim@b.c", "x@b.c"], "S: x\r\n\r\nhi\r\n", "h.example")[0] == 554, "message to victim not rejected")
s = d.session()
check(s.msg("a@b.c", ["x@b.c"], "S: x\r\n\r\nhi\r\n", "h.example")[0] == 250, "message to x rejected")
"""
