property = 'C06'
needs = 'a HELO argument that starts as an address literal and ends otherwise'
breaks = 'a HELO name like [1.2.3.4) counts as a proper IP literal'
edits = [
    ('rules.go',
     r"""	if len(hn) > 2 && hn[0] == '[' && hn[len(hn)-1] == ']' {""",
     r"""	if len(hn) > 2 && hn[0] == '[' {"""),
]
demo = r"""
write("rules", "reject helo-has properip\n")
d = Daemon("-force-receive", "-r", "rules")
s = d.session()
check(s.code("EHLO [10.1.2.3)") == 250, "not a literal, but refused")
check(s.code("EHLO [10.1.2.3]") == 550, "literal not refused")
"""
