property = 'C16'
needs = 'a line of the connection file that is longer than 4096 bytes'
breaks = 'long lines of the connection file are taken apart'
edits = [
    ('conncfg.go',
     r"""		line, err := rdr.ReadString('\n')
""",
     r"""		lb, _, err := rdr.ReadLine()
		line := string(lb)
"""),
]
demo = r"""
write("cc", "# " + "x" * 4093 + " 127.0.0.1 hostname=comment.example\n127.0.0.1" + " " * 5000 + "hostname=local.example\n")
d = Daemon("-force-receive", "-conncfg", "cc")
s = d.session()
check("local.example" in s.greeting[1][0], "the greeting is %r" % (s.greeting,))
"""
