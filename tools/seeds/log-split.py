property = 'C23'
needs = 'a message with so many recipients that its log line is longer than 4096 bytes'
breaks = 'long message log lines are written in several pieces'
edits = [
    ('sinksmtp.go',
     r"""	var outbuf bytes.Buffer
	writer := bufio.NewWriter(&outbuf)
	fmt.Fprintf(writer, "%s [%s] from""",
     r"""	writer := bufio.NewWriter(logf)
	fmt.Fprintf(writer, "%s [%s] from"""),
    ('sinksmtp.go',
     r"""	writer.Flush()
	logf.Write(outbuf.Bytes())
""",
     r"""	writer.Flush()
"""),
]
demo = r"""
a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_DGRAM)
d = Daemon("-force-receive", "-l", "-", out=a)
s = d.session()
check(s.msg("a@b.c", ["r%03d-%s@b.c" % (i, "x" * 60) for i in range(100)], "S: x\r\n\r\nhi\r\n", "h.example")[0] == 250, "message")
b.settimeout(5)
l = b.recv(100000)
check(l.endswith(b"\n"), "log line not written in one piece (%d bytes)" % len(l))
"""
