property = 'C11'
needs = 'a write to the message file that fails (file size limit)'
breaks = 'a failed write is reported on standard error but not to the client'
edits = [
    ('sinksmtp.go',
     r"""		_, err = fp.Write(m)
		if err != nil {
			warnf("error writing message file: %s\n", err)
		}
""",
     r"""		if n, werr := fp.Write(m); werr != nil && n == 0 {
			warnf("error writing message file: %s\n", werr)
			err = werr
		}
"""),
]
demo = r"""
os.mkdir("save")
d = Daemon("-d", "save", limit=(resource.RLIMIT_FSIZE, (20000, 20000)))
s = d.session()
check(s.msg("a@b.c", ["x@b.c"], "S: x\r\n\r\n" + ("x" * 70 + "\r\n") * 1000, "h.example")[0] // 100 == 4, "cut off message was acknowledged")
check(s.msg("a@b.c", ["x@b.c"], "S: x\r\n\r\n" + ("x" * 70 + "\r\n") * 10)[0] == 250, "short message")
"""
