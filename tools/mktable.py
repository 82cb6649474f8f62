#!/usr/bin/env python3
"""Rewrites the table of seeded bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for d in sorted(os.listdir(os.path.join(here, 'seeded'))):
    m = json.load(open(os.path.join(here, 'seeded', d, 'meta.json')))
    rows.setdefault(m['property'], []).append((d, m['needs']))
text = '| check | caught | \n|---|---|\n'
text = '| check | changes it catches |\n|---|---|\n' + ''.join(
    '| %s | %s |\n' % (p, ', '.join(d for d, _ in rows[p])) for p in sorted(rows))
path = os.path.join(here, 'DESIGN.md')
s = open(path).read()
head = s[:s.index('## Seeded bugs')]
s = head + '''## Seeded bugs

%d changes in `seeded/` (what each needs is in its meta.json), all caught by the check of the property they were written for,
in the quick tier. Those missed at first led to a stronger generator or oracle: see below.

''' % sum(map(len, rows.values())) + text + '''
Missed at first, and what was done: signal-cached, params-shared (C37 sending became a history in which a message is changed, sent and
changed again), throw-keeps-lock (C10 over a connection, with a second thread that sends after a handler has thrown), last-handler-cached
(C14, C15 and C10 fence with signals at random, as the fence's own calls reset a cache), and the survivors of
mutation testing of /repo/src (about 500 mutants run against all checks): hexadecimal numbers in texts (C25), match elements without a key
(C17), the flag "interactive" in requests (C06), a loop after the end of the stream (C36 idle), a lock missing while data is sent directly
(C30, statistics requested during authentication). Thresholds: text-over-64k, array-64k-elements, dump-long-array, many-header-fields, forget-oldest-call, queued-before-auth-limit
and auth-uid-digits led to the large cases, the "many" parts and the interposed user id.
The other survivors change nothing that can be observed (reserve, locks around
what one thread uses, alignment of types aligned to 1 elsewhere, log texts).
'''
open(path, 'w').write(s)
