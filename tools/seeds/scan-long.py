property = 'C24'
needs = 'a pattern file with a very long line'
breaks = 'the file is read with a scanner whose line length is limited and whose error is ignored'
edits = [('sinksmtp.go', r"""	for {
		line, err := rdr.ReadString('\n')
		// The last line may not end with a newline.
		if err == io.EOF && line != "" {
			err = nil
		}
		if err != nil {
			if err == io.EOF {
				return a, nil
			}
			return a, err
		}
		line = strings.TrimSpace(line)
		if line == "" || line[0] == '#' {
			continue
		}

		line = strings.ToLower(line)
		a = append(a, line)
	}
	// Cannot be reached; for loop has no breaks.
}
""", r"""	sc := bufio.NewScanner(rdr)
	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		if line == "" || line[0] == '#' {
			continue
		}
		a = append(a, strings.ToLower(line))
	}
	if err := sc.Err(); err != nil && err != bufio.ErrTooLong {
		return a, err
	}
	return a, nil
}
""")]
demo = r"""
write("bad", "one@b.c\n# " + "x" * 70000 + "\ntwo@b.c\n")
write("rules", "reject from ./bad\n")
d = Daemon("-force-receive", "-r", "rules")
s = d.session(); s.code("EHLO h")
check(s.code("MAIL FROM:<one@b.c>") == 550, "one")
check(s.code("MAIL FROM:<two@b.c>") == 550, "patterns after a long line are lost")
"""
