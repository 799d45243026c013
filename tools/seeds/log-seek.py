property = 'C23'
needs = 'another writer of the same log file (one file for two logs, or a second daemon)'
breaks = 'log files are not opened for appending but positioned at their end once'
edits = [('sinksmtp.go', r"""	return os.OpenFile(fname,
		os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0666)
""", r"""	fp, err := os.OpenFile(fname, os.O_WRONLY|os.O_CREATE, 0666)
	if err != nil {
		return nil, err
	}
	if _, err = fp.Seek(0, 2); err != nil {
		return nil, err
	}
	return fp, nil
""")]
demo = r"""
write("rules", "@helo set-with all with note \"abc\"\n")
d = Daemon("-force-receive", "-r", "rules", "-smtplog", "log", "-l", "log")
for i in range(3):
    s = d.session()
    s.msg("a@b.c", ["x@y.z"], "Subject: x\r\n\r\nbody\r\n", helo="h"); s.quit()
time.sleep(0.3)
t = open("log").read()
check(t.count("rule note: abc\n") >= 3 and t.count("abc\n") == t.count("rule note: abc\n"), "notes are missing")
check(len(re.findall(r"(?m)^\d{4}-\d\d-\d\d .* from .*a@b.c", t)) == 3, "messages are missing")
"""
