property = 'C12'
needs = 'a transaction given up with RSET before DATA and then another from the same sender'
breaks = 'recipients of an abandoned transaction are kept if the sender is the same'
edits = [
    ('sinksmtp.go',
     r"""				trans.from = evt.Arg
				trans.data = ""
				trans.rcptto = []string{}
""",
     r"""				if trans.from != evt.Arg || trans.data != "" {
					trans.rcptto = []string{}
				}
				trans.from = evt.Arg
				trans.data = ""
"""),
]
demo = r"""
os.mkdir("save")
d = Daemon("-d", "save", "-l", "log")
s = d.session()
s.cmd("EHLO h"); s.cmd("MAIL FROM:<a@b.c>"); s.cmd("RCPT TO:<old@b.c>"); s.cmd("RSET")
check(s.msg("a@b.c", ["x@b.c"], "S: x\r\n\r\nhi\r\n")[0] == 250, "message")
check("old@b.c" not in open("log").read(), "log has a recipient of the abandoned transaction")
"""
