property = 'C27'
needs = 'a save directory that exists but cannot be written to'
breaks = 'the save directory is only looked at, not tried'
edits = [
    ('sinksmtp.go',
     r"""		fp, err := os.Create(tstfile)
""",
     r"""		fp, err := os.Open(savedir)
"""),
]
demo = r"""
try:
    d = Daemon("-d", "/proc/self")
    check(False, "started with a save directory that cannot be written to")
except SystemExit as e:
    check("savedir" in str(e), "other reason: %s" % e)
"""
