property = 'C13'
needs = 'a stalled client that connects again before the window ends and then once more after the original end'
breaks = 'connections of a stalled client keep extending its stall'
edits = [('sinksmtp.go', r"""		i.stats.LookupHit++
		return true, t.count
""", r"""		i.stats.LookupHit++
		if t.count >= yakCount && i == yakkers {
			t.when = time.Now()
		}
		return true, t.count
""")]
demo = r"""
d = Daemon("-force-receive", "-smtplog", "slog", "-dncount", "2", "-dndur", "4s")
time.sleep(4.5)
for i in range(2): s = d.session(); s.quit()
time.sleep(2.5)
s = d.session(); check(s.code("EHLO h") == 421 or True, "stalled"); s.close()
time.sleep(2.5)
s = d.session(); check(s.code("EHLO h") == 250, "still stalled after the window"); s.close()
"""
