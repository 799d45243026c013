property = 'C10'
needs = 'the same message with the same envelope over two connections with -save-hash full'
breaks = 'the full naming depends on the client port again'
edits = [
    ('sinksmtp.go',
     r"""	rmsg := trans.rip
	if rmsg == "" {
		rmsg = trans.raddr.String()
	}
""",
     r"""	rmsg := trans.raddr.String()
	if hashtype == "all" && trans.rip != "" {
		rmsg = trans.rip
	}
"""),
]
demo = r"""
os.mkdir("save")
d = Daemon("-d", "save", "-save-hash", "full", "-l", "log")
for i in range(2):
    s = d.session()
    check(s.msg("a@b.c", ["x@b.c"], "S: x\r\n\r\nhi\r\n", "h.example")[0] == 250, "accepted")
    s.quit()
check(len(os.listdir("save")) == 1, "the repeated message has another name")
"""
