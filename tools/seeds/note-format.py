property = 'C23'
needs = 'a rule with a note that has a % in it'
breaks = 'notes are taken for formats in the SMTP log'
edits = [
    ('sinksmtp.go',
     r"""writeLog(c.trans.log, "! rule note: %s\n", note)""",
     r"""writeLog(c.trans.log, "! rule note: "+note+"\n")"""),
]
demo = r"""
write("rules", "set-with helo h.example with note \"100% sure: %s\"\n")
d = Daemon("-force-receive", "-smtplog", "slog", "-r", "rules")
s = d.session(); s.code("EHLO h.example"); s.quit(); time.sleep(0.3)
check("rule note: 100% sure: %s\n" in open("slog").read(), "note is mangled")
"""
