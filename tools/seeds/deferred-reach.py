property = 'C01'
needs = 'a rule for exactly the phase it requires, that also matches in the next phase'
breaks = 'such a rule is also run in the phase after its own'
edits = [
    ('rules.go',
     r"""		case r.deferto != pAny && r.deferto < ph:""",
     r"""		case r.deferto != pAny && r.deferto+1 < ph && r.deferto == r.requires:"""),
]
demo = r"""
write("rules", "@from accept from ok@b.c\n@to reject to x@b.c\nreject to x@b.c with message second\n")
write("rules2", "@data accept to a@b.c\nreject to x@b.c\n@to accept all\n@data reject all\n")
d = Daemon("-force-receive", "-r", "rules")
s = d.session()
s.cmd("EHLO h"); s.cmd("MAIL FROM:<ok@b.c>")
check(s.code("RCPT TO:<x@b.c>") == 550, "not rejected by the @to rule")
write("rules", "@to accept to x@b.c\nreject from ok@b.c to x@b.c\n")
s = d.session()
s.cmd("EHLO h"); s.cmd("MAIL FROM:<ok@b.c>")
check(s.code("RCPT TO:<x@b.c>") == 250, "recipient not accepted by @to accept")
check(s.code("DATA") == 554, "the @to accept also decided DATA")
"""
