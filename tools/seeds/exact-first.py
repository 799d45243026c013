property = 'C16'
needs = 'a configuration file with a netblock line before an exact line that both match'
breaks = 'an exact address line is preferred to an earlier netblock line'
edits = [
    ('conncfg.go',
     '\tfor _, de := range *d {\n\t\tif de.local == "*"',
     '\tfor _, de := range *d {\n\t\tif de.local == las {\n\t\t\treturn de\n\t\t}\n\t}\n\tfor _, de := range *d {\n\t\tif de.local == "*"'),
]
demo = r"""
d0 = port()
write("conf", "127.0.0.0/8 hostname=net.example\n")
d = Daemon("-force-receive", "-conncfg", "conf")
write("conf", "127.0.0.0/8 hostname=net.example\n127.0.0.1:%d hostname=exact.example\n" % d.ports[0])
s = d.session()
check(s.greeting[1][0].startswith("net.example"), "not the first matching line")
"""
