import json
P=[]
def p(id,title,st,over,qt,why,files,mech,obs=None,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],hook_needed=None))
    if obs: d['anchors']['observe_at']=obs
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
R='rules.go';S='sinksmtp.go';N='rnodes.go';PA='rparse.go';L='rlex.go'
SM='SMTP replies of the running program'
p('C01','The first matching rule decides each SMTP phase, in order',
 'In every phase of a session the reply is the action of the first rule, in file order, that is eligible in that phase and matches; a rule without a phase is eligible from the moment everything it looks at is known and in every later phase, and a rule with a phase only in that phase. After RCPT TO, a rule about recipients matches if it matches any of the accepted recipients. When no rule matches, the command is accepted.',
 ['programs','inputs','histories'],'every list of rules x every sequence of HELO, MAIL FROM, RCPT TO, DATA and message in a session',
 'rules_test.go says itself that it does not test the decision function; the space is rule lists times conversations',
 [R,PA,S],[('rule eligibility and first match','rules.go: Decide'),('any recipient','rules.go: ruleForEachRcpt'),('phase requirements','rparse.go: minReq, pRule')],[SM])
p('C02','MAIL FROM:<> is never refused; its refusal moves to the RCPT TOs',
 'Whatever the rules, options or pattern files say, a null sender that is given in sequence gets a 2xx reply (only a do-nothing client that keeps starting over may be dropped instead). If the rules would have refused it, every following RCPT TO of that transaction gets exactly that refusal, with its message; a new MAIL FROM or HELO forgets it.',
 ['programs','histories'],'every rule set x every command sequence containing MAIL FROM:<>',
 'no test drives a conversation; the deferred result is state that must be cleared on every path',
 [R,S],[('deferred result','rules.go: Decide (defresult, defprops)')],[SM])
p('C03','Rule expressions mean what they say: series, or, not, parentheses, clauses',
 "A series of match operations matches when all do; 'or' binds more tightly than a series; 'not' applies to the single operation or parenthesised group after it; parentheses group; the clauses of a compact rule are tried in order and the first that matches is used. If an operation that is consulted names a pattern file that is missing, empty or unreadable, the whole rule does not match, negated or not; a file that is never consulted does not matter.",
 ['programs','inputs'],'every expression tree, every combination of operand truth values and of usable and unusable pattern files',
 'the parser tests compare a few dozen printed forms and evaluate a few of them',
 [PA,N,R],[('precedence','rparse.go: pAndl, pOrl, pTerm'),('evaluation','rnodes.go: AndL, OrN, NotN'),('unusable files','rules.go: rulemiss')],[SM])
p('C04','Address patterns match exactly the documented addresses',
 "For every address and pattern, case ignored: '<>' matches only the null sender, 'a@b' only itself, 'a@' that local part with any or no domain, '@b' any local part at exactly b, '@.b' at b and its subdomains (whole labels only), '@' every address with a local part and a domain. An address that starts or ends with '@' is matched by no pattern.",
 ['inputs'],'every address string and every pattern string',
 'rules_test.go has 19 pairs',[R,N],[('matching','rules.go: matchAddress'),('from and to operands','rnodes.go: newFromNode, newToNode')],[SM])
p('C05','Host, HELO, source and IP patterns match exactly the documented clients',
 "For every name and pattern, case ignored: 'b.c' matches exactly that name, '.b.c' that name and its subdomains by whole labels, for HELO names, for any verified host name of the client, and for 'source' any of those or the sender's domain. 'ip' matches a client exactly when its address equals the given address or lies in the given netblock, however either is written.",
 ['inputs','configurations'],'every HELO name, reverse DNS name, sender domain and client address against every pattern',
 'rules_test.go has 10 host pairs and nothing for ip and source',[R,N],[('host matching','rules.go: matchHost'),('ip matching','rules.go: matchIp'),('source','rnodes.go: newSourceNode')],[SM])
p('C06','Address, HELO and reverse DNS attributes are exactly the documented ones',
 'For every address, HELO command and reverse DNS situation, from-has/to-has, helo-has and dns match exactly when at least one listed attribute holds: route, noat, quoted, unqualified, garbage, bad and the three domain states for addresses; none, bogus, helo, ehlo, nodots, bareip, properip, ip, myip, remip and otherip (IP literals compared by value) for HELO; nodns, exists, noforward, inconsistent and good for DNS. The three domain states are mutually exclusive and not defined for addresses that are garbage, routes, unqualified or without an @.',
 ['inputs','configurations'],'every address and HELO string, local and remote address, and reverse DNS outcome, for every attribute',
 'rules_test.go samples about 30 strings',[R,PA],[('attributes','rules.go: getAddrOpts, heloGetter, dnsGetter'),('attribute names','rparse.go: heloMap, dnsMap, addrMap')],[SM])
p('C07','Rule files are read exactly by the documented grammar, always to an end',
 'Every byte string given as a rules file is either accepted with the documented meaning (quoting with backslash escapes, comments and blank lines, continuation lines, compact form, includes, words in any argument position, no final newline needed) or refused as a whole; reading always ends and never crashes. In particular a set-with rule without options, a phase before what the rule needs, an unknown or missing operation, an unterminated quote or an unbalanced parenthesis are refused.',
 ['inputs','programs'],'every byte string and every sequence of rule words',
 'lexer and parser tests have fixed lists of inputs',[L,PA],[('lexer states','rlex.go: lexLineStart, lexLineRunning, lexWord, lexQuote, lexSpecial'),('parser','rparse.go: pFile, pRule, pRClause, pWith')],[SM,'standard error'])
p('C08','Any rules loading error means 4xx to everything, and only while it lasts',
 'If, at the time of a connection, any rules file or included file is missing, unreadable, fails while being read or does not parse, then every command of that session is answered 4xx and nothing is accepted, whatever good rules surround the error. The next connection after the files are repaired is served by exactly the repaired rules, and options that stand for rules are applied first in every good session.',
 ['histories','fault_sequences','configurations'],'every history of file states (good, missing, unreadable, read error, parse error, in files, later files and includes) across connections',
 'no test loads files at all',[S,PA],[('reload per connection','sinksmtp.go: setupRules, accumRules, loadRules'),('stall everything','sinksmtp.go: genStallRules'),('includes','rparse.go: pInclude')],[SM,'standard error'])
p('C09','Simultaneous sessions never see each other\'s rules, envelope or options',
 'Each session is decided by the rules as they were when it connected and by its own commands only, for every interleaving of any number of sessions and of rule file changes. Nothing one session sends or matches changes the replies, saved files or log lines of another, apart from the per-address do-nothing and TLS-failure counts.',
 ['schedules','histories'],'every interleaving of sessions, at command and at statement granularity, with rule files changing between connections',
 'no test runs two sessions',[S,R],[('per connection rule slice','sinksmtp.go: accumRules, process'),('per connection context','rules.go: newContext')],[SM,'saved files'],[('base rules','rules from options, shared by all connections','sinksmtp.go: main')])
p('C10','A received message is saved exactly, under its documented hash name',
 'With a save directory in effect, each fully received message (also one that is then refused) is on disk before the reply, as a file holding exactly the connection and envelope of its own transaction and then the unaltered message bytes, named by the SHA1 of the message, of everything but the id line, or of everything, according to the chosen naming. An existing file of that name is never altered and is not an error; the reply to an accepted or rejected message carries that name.',
 ['inputs','histories','configurations'],'every message, envelope, TLS and DNS situation, naming scheme, and history of messages',
 'no test saves anything',[S],[('file contents','sinksmtp.go: msgDetails, getHashes'),('naming and exclusive create','sinksmtp.go: handleMessage')],['save directory',SM])
p('C11','No message is acknowledged without a complete, flushed copy on disk',
 'Whichever file operation fails or stops short while a message is being saved, and wherever the machine crashes, the client gets 2xx (or a final 5xx that claims the message was kept) only if the complete file is in the save directory and has been flushed. A failure gives 4xx, leaves no partial file that would pass for the message, and a later retry is saved completely.',
 ['fault_sequences','crash_points'],'every failure or short write at every file operation of a save, pairs of them, and a crash after every operation',
 'no test saves anything, let alone with faults',[S],[('write, sync, close, remove','sinksmtp.go: handleMessage'),('tempfail on error','sinksmtp.go: process (GOTDATA)')],['save directory',SM])
p('C12','Each message is recorded with exactly its own transaction\'s envelope',
 'For every sequence of SMTP commands, the saved file and log line of a message show the HELO name, sender, accepted recipients (in order), TLS state and time of arrival of exactly that transaction: refused commands, earlier transactions, RSET and repeated HELO leave nothing behind. The replies to all commands follow the same state.',
 ['histories'],'every command sequence up to the bound, with rules that refuse some of the commands',
 'no test drives a conversation',[S],[('transaction state','sinksmtp.go: process (main loop)')],['message log','save directory',SM])
p('C13','Do-nothing clients are stalled after the set count, for the set time',
 'With a do-nothing limit of n, a client address is stalled (4xx to everything, nothing in the SMTP log) exactly when it has n or more counted sessions that did not reach the required phase, each within the time window of the one before, or was marked by a matching rule at any point of a session. Reaching the phase (or having a message that could not be saved) clears the count; sessions with rule loading errors or TLS failures, sessions dropped at once, and stalled sessions themselves, do not count; the stall ends when the window has passed, and other addresses are unaffected.',
 ['histories','configurations'],'every history of sessions of each kind, over time, for every required phase and limit',
 'no test covers counting; time windows need long histories',[S],[('counting','sinksmtp.go: ipMap.Add/Set/Del/Lookup'),('session outcome','sinksmtp.go: process (end)')],[SM,'SMTP log'],[('yakkers','per-address counts and times','sinksmtp.go: yakkers')])
p('C14','Per-address counts are exact under every interleaving of sessions',
 'When sessions from one address end, fail TLS or repeat transactions at the same time, in any interleaving, no count is lost or made up and the daemon neither deadlocks nor crashes. The result is the same as of some order of the sessions\' ends.',
 ['schedules'],'every interleaving of simultaneous session ends and starts up to the preemption bound',
 'no concurrent test exists',[S],[('mutex around each table operation','sinksmtp.go: ipMap')],[SM])
p('C15','TLS is offered by the documented policy only',
 'TLS is offered, with the given certificates in their order, exactly when the connection has certificates, TLS is not already on, the address has had fewer than two TLS failures (each within 72 hours of the one before), and no rule has turned it off; a client certificate is asked for only from addresses without a failure and not if a rule says otherwise. TLS failures of one address never affect another, and a good TLS session changes nothing.',
 ['histories','configurations'],'every history of TLS successes and failures over time and addresses, with every tls-opt rule and certificate configuration',
 'no test sets up TLS; the window is 72 hours',[S,'conncfg.go'],[('TLS failure table','sinksmtp.go: notls'),('TLS configuration','sinksmtp.go: process, decider (tls-opt)')],['EHLO replies and TLS configuration given to the SMTP library'])
p('C16','Per-connection settings come from the first matching line only',
 'For every configuration file and local address, the greeting name and certificates are those of the first line whose address, address:port, netblock or * matches; a matching line without certificates means no TLS; without any match, or if the file cannot be loaded at that moment, the command line settings apply. The file is read anew for each connection and every line counts, also a last one without newline; a faulty line makes the whole file not apply.',
 ['inputs','configurations','histories'],'every configuration file up to the bound x every local address x file changes between connections',
 'no test loads a connection configuration',['conncfg.go',S],[('first match','conncfg.go: destMap.find'),('file format','conncfg.go: readConnFile')],['greeting','EHLO replies','certificates'])
p('C17','A mail domain is resolvable, bad or unknown exactly as its DNS says',
 "A domain resolves if at least one of its MX hosts (or, without any MX, the domain itself) has addresses and all of that host's addresses are public unicast ones, and no MX at all is '.' or 'localhost.'; it is unknown if that hinges on a lookup that failed temporarily; otherwise it is bad. A temporary failure is never reported as bad, and a definite bad is never reported as unknown. A bad or unknown domain that was looked at is named in the SMTP log with the reason, unless the line would be the same as the one before.",
 ['configurations','fault_sequences'],'every combination of MX sets, host addresses and lookup failures',
 'mxresolve_test.go asks the real DNS about a few names',['mxresolve.go',R],[('validity','mxresolve.go: ValidDomain, checkIP, isTemporary')],[SM])
p('C18','Only forward-confirmed reverse names count as verified',
 "A reverse DNS name of the client is verified exactly when its forward lookup includes the client's address; names without a forward lookup and names that point elsewhere are kept apart. 'host' matches verified names only, and saved messages list each name under its own kind.",
 ['configurations','fault_sequences'],'every set of PTR names x forward results and failures for each',
 'there is no test for reverse DNS',['rdns.go',N,S],[('verification','rdns.go: LookupAddrVerified')],[SM,'save directory'])
p('C19','DNS blocklist rules match exactly the listed clients and domains',
 "'dnsbl' matches exactly when the reversed IPv4 address of the client is listed in that list; 'dbl' exactly when the HELO name, any reverse DNS name (verified or not), or the sender's domain, as selected, is. A lookup failure is not a match, and is not remembered once lookups work again; other lists, earlier names and other sessions do not matter. The SMTP log names the lists that a decision hit (and the SBL records), unless the line would be the same as the one before.",
 ['configurations','fault_sequences'],'every combination of selected sources, names and listed entries, with failing lookups, and every short history of names and failures in a session',
 'no test looks up blocklists',[N,R],[('lookups','rnodes.go: DNSblN, DblNode'),('cache','rules.go: getDnsblRes')],[SM])
p('C20','No client input and no accepted rules can crash or wedge the daemon',
 'For every rules file that loads, every client address, every command argument (empty, odd, very long), every TLS and DNS outcome and every option combination, each command gets exactly one reply and the daemon goes on serving. No session makes the process exit, panic or block for good.',
 ['inputs','programs','configurations','histories'],'every match operation and option x every class of odd client input, with logs on and off',
 'tests use well-formed samples',[S,R,N,'rdns.go'],[('guards in matchers and loggers','rules.go, sinksmtp.go')],[SM])
p('C21','With-options take effect exactly for the rules that matched',
 "The reply's message, the note in the SMTP log, the save directory and TLS options in effect are those set by the rules that matched: set-with rules in order and then the deciding rule, later ones overriding earlier ones, only the matching clause of a compact rule counting. Options of rules that did not match never have any effect, and multi-line messages become multi-line replies.",
 ['programs','inputs'],'every sequence of set-with, compact and deciding rules with options up to the bound, through all phases',
 'no test looks at with options at run time',[N,S,R],[('accumulation','rnodes.go: Rule.check'),('effects','sinksmtp.go: decider, doAccept')],[SM,'SMTP log','save directory'])
p('C22','Command line options act as the documented rules before all rule files',
 'For every combination of -nostdrules, -M, -fromreject, -toaccept, -heloreject and rule files, the outcome of every session is that of the documented rules, in the documented order, before those of the files in the order given. A missing or empty pattern file makes its option have no effect.',
 ['configurations','inputs'],'every subset of options, states of their files and following rules x conversations',
 'no test builds the option rules and runs them',[S],[('option rules','sinksmtp.go: buildRules')],[SM])
p('C23','Log files have exactly one whole, correct line per event',
 'Each fully received message gives exactly one line in the message log, written in one piece, with the right envelope, size and hashes; every SMTP log line starts with its session\'s id and is written whole; simultaneous sessions never mix within a line. Stalled do-nothing sessions write nothing to the SMTP log and one line each to the do-nothing log. What was in a log file before the program started stays there.',
 ['schedules','histories'],'every interleaving of sessions and every kind of session',
 'no test has logs',[S],[('one write per line','sinksmtp.go: logMessage, smtpLogger.Write, yakLog')],['message log','SMTP log','do-nothing log'])
p('C24','A pattern file contributes every pattern line and nothing else',
 'For every file content, the patterns are exactly the lines that are neither blank nor start with # after trimming white space, in lower case, including a last line without a newline. A file that cannot be read to its end contributes nothing, and each connection sees the file as it is when first needed in that connection.',
 ['inputs','fault_sequences','histories'],'every file content up to the bound, read errors at every point, and file changes between connections',
 'sinksmtp_test.go reads one or two lists',[S,R],[('reading','sinksmtp.go: readList, loadList'),('per session cache','rules.go: getMatchList')],[SM])
p('C25','Load problems are reported to standard error once per change',
 'While loading the rules goes on failing with one and the same problem, one message is printed however many connections there are; when loading fails with a different problem that is printed too; no connection is stalled because of a problem whose message is not printed. Reporting never blocks a session for good.',
 ['histories','schedules'],'every history of failing and succeeding loads of several kinds, from simultaneous connections',
 'no test covers warnings',[S],[('duplicate suppression','sinksmtp.go: warnonce, warnbackend')],['standard error'])
p('C26','Every accepted connection is served once, under its own id',
 'For any number of listening addresses and any order of arrivals, accept errors and long-running sessions, every accepted connection is greeted exactly once and promptly, independent of the others, with ids counting up from one without gaps or repeats. An accept error loses no connection and stops no listener, and a connection is closed when its session ends.',
 ['schedules','fault_sequences','histories'],'every order of arrivals and accept errors over the listeners with sessions of any length open',
 'no test has a listener',[S],[('fan-in and numbering','sinksmtp.go: main, listener')],['greetings','SMTP log ids'])
p('C27','The program refuses to start in unsafe or contradictory configurations',
 'It exits without listening when it could receive mail with nowhere to put it (no save directory, -force-receive or -M), when naming or minimum phase values are invalid, when one option needs another that is missing, or when a certificate, log file, save directory, connection file or rules file is unusable. In every other combination it starts and listens on every address given.',
 ['configurations'],'every combination of the options and of the states of the files they name',
 'no test starts the program',[S],[('checks in main','sinksmtp.go: main')],['exit status and listeners'])
p('C28','The server names itself as documented and is slow only when asked',
 'The name in the greeting and in every HELO and EHLO reply is that of -helo, else the first reverse DNS name of the local address without its final dot, else the local address with its port, found anew for each connection. With -S each reply takes at least a tenth of a second per character, and without it the daemon adds no delay, except to stalled do-nothing sessions, which are always that slow.',
 ['configurations','histories','fault_sequences'],'every local address x reverse DNS outcome x option, over sequences of connections',
 'no test opens a connection',[S],[('server name','sinksmtp.go: process'),('pace','sinksmtp.go: process (-S)')],[SM,'time'])
p('C29',"The 'tls' operation matches exactly by whether TLS is on",
 "'tls on' matches when TLS is on at the moment the rule is evaluated and 'tls off' when it is not. A rule with it takes effect from MAIL FROM on and never before, with or without a phase of its own, and it combines with negation, alternatives, other operations and set-with like any other operation.",
 ['programs','inputs'],'every rule list with the operation up to the bound x every command sequence with STARTTLS anywhere',
 'tests only parse the operation',[R,N],[('TLS operation','rnodes.go: TlsN; rparse.go: minReq')],[SM])
p('C30','Published statistics count every event exactly and change nothing else',
 'With -pprof, /debug/vars can be read at any moment and counts exactly the connections; the HELO/EHLO, MAIL FROM, RCPT TO and DATA commands received in sequence and those accepted; the messages received; QUITs and aborts; sessions that used TLS and TLS errors; connections with rule loading errors, from stalled do-nothing clients and without TLS because of earlier failures; do-nothing additions and forcings; the blocklist hits that are logged; and the time of the last connection and message. With -statsperip or several listening addresses it also has the connections of each local address. No count is lost however sessions interleave, and having statistics on changes no reply, file or log line.',
 ['histories','schedules','inputs'],'every history of sessions and command sequence, and every interleaving of sessions with each other and with readers of the statistics',
 'tests never start the program; lost updates need particular interleavings',[S],[('counters','sinksmtp.go: events, process, logDnsbls'),('per-list and per-address counts','sinksmtp.go: dnsblCounts'),('times','sinksmtp.go: updateTimeOf, updateOneTime'),('publishing','sinksmtp.go: setupExpvars')],['/debug/vars of the monitoring server',SM])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
for x in P:
    n=x['statement'].count('. ')+1
    if n>3: print(x['id'],n)
