property = 'C08'
needs = 'a change of an included file while the including file stays as it is'
breaks = 'parsed rules are kept as long as the rules file itself does not change, whatever happens to files it includes'
edits = [('sinksmtp.go', r"""	rules, err := loadRules(fname, 0)
""", r"""	rules, err := cachedRules(fname)
"""), ('sinksmtp.go', r"""// our contract is that we always return either real rules or an error.
""", r"""var rcache struct {
	sync.Mutex
	m map[string]rcEnt
}

type rcEnt struct {
	when  time.Time
	size  int64
	rules []*Rule
}

// avoid parsing unchanged files
func cachedRules(fname string) ([]*Rule, error) {
	st, err := os.Stat(fname)
	if err != nil {
		return nil, err
	}
	rcache.Lock()
	defer rcache.Unlock()
	e, ok := rcache.m[fname]
	if ok && e.when.Equal(st.ModTime()) && e.size == st.Size() {
		return e.rules, nil
	}
	rules, err := loadRules(fname, 0)
	if err != nil {
		return nil, err
	}
	if rcache.m == nil {
		rcache.m = make(map[string]rcEnt)
	}
	rcache.m[fname] = rcEnt{st.ModTime(), st.Size(), rules}
	return rules, nil
}

// our contract is that we always return either real rules or an error.
""")]
demo = r"""
write("r1", "include inc\n"); write("inc", "reject from bad@b.c\n")
d = Daemon("-force-receive", "-r", "r1")
s = d.session()
check(s.code("EHLO h") == 250 and s.code("MAIL FROM:<bad@b.c>") == 550, "good rules")
s.quit()
write("inc", "reject from other@b.c\n")
s = d.session()
check(s.code("EHLO h") == 250 and s.code("MAIL FROM:<bad@b.c>") == 250, "the old rules of the included file are used")
"""
