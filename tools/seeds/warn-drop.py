property = 'C25'
needs = 'two different problems that are reported at nearly the same moment'
breaks = 'a report is dropped when the reporter is busy'
edits = [('sinksmtp.go', r"""	s := fmt.Sprintf(format, elems...)
	uniquer <- s
}
""", r"""	s := fmt.Sprintf(format, elems...)
	// never hold up a session
	select {
	case uniquer <- s:
	default:
	}
}
"""), ('sinksmtp.go', "var uniquer = make(chan string)\n", "var uniquer = make(chan string, 1)\n")]
demo = r"""
# a reporter that is stuck on a full pipe, and then two more problems
import fcntl
r, w = os.pipe()
fcntl.fcntl(w, 1031, 4096)
p = port()
write("r1", "accept all\n")
pr = subprocess.Popen([BIN, "-helo", "t", "-nostdrules", "-force-receive", "-r", "r1", "127.0.0.1:%d" % p], stderr=w, stdout=subprocess.DEVNULL)
procs.append(pr); os.close(w)
time.sleep(1)
def conn(name, wait=True):
    write("r1", "reject " + name + "\n")
    s = socket.create_connection(("127.0.0.1", p)); s.settimeout(1)
    try: s.recv(100)
    except OSError: pass
    return s
l = []
for i in range(12):
    l.append(conn("p%d" % i + "x" * 900))
time.sleep(0.5)
fcntl.fcntl(r, fcntl.F_SETFL, os.O_NONBLOCK)
t = b""
for i in range(40):
    try: t += os.read(r, 65536)
    except BlockingIOError: pass
    time.sleep(0.05)
n = len(set(re.findall(rb"p(\d+)x", t)))
check(n == 12, "only %d of 12 problems were reported" % n)
"""
