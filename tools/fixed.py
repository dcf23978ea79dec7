#!/usr/bin/env python3
"""Refreshes the "fixed" list of known_findings.json from the fix commits of /repo (developer tool, not run by checks)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {'db3426f': 'C01', '8fa89a5': 'C02', '8c0932f': 'C02', 'e18b12f': 'C02', '1f657fa': 'C05', '67e666e': 'C05', '7b510ce': 'C07',
       '67c4e77': 'C07', '137ecbe': 'C14', '649a30d': 'C14', '54f703a': 'C07', 'a72b5e6': 'C09', 'dd7fa1e': 'C09', '6d453e9': 'C09',
       'c4be0ff': 'C10', '8f4cc19': 'C11', '9dcc37f': 'C13', '4828452': 'C16', '8d206d2': 'C14', '70e930a': 'C01', '2d0f708': 'C14',
       'a9c57be': 'C19', 'c4865bb': 'C19', '5ff1193': 'C15', '2fdfc7d': 'C16', '944db29': 'C18', 'ff4fd99': 'C18', '09240ab': 'C18', 'b3b7e2d': 'C17', '8ef65f8': 'C17', '25ee2ad': 'C17', '15378b1': 'C17',
       'a94d1e0': 'C18', '5aa2e7b': 'C18', 'a013bcf': 'C24', '2b49bbb': 'C25', 'b4b1ecf': 'C25', '81b0960': 'C25', 'be3436e': 'C27', '32d2b76': 'C26', '11f0aab': 'C28', '6790d58': 'C24',
       '14348a1': 'C23', '4cd76ac': 'C23', '817b478': 'C23', '88b5734': 'C23', '3665127': 'C28', '67dcc7d': 'C28', '28c5bb9': 'C23', '0502c1b': 'C26', '1068bda': 'C26', 'b748602': 'C29'}
path = os.path.join(ROOT, 'known_findings.json')
d = json.load(open(path)) if os.path.exists(path) else {'findings': []}
out = []
for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', 'e2e83a2..HEAD'], text=True).splitlines():
    h, s = l.split(' ', 1)
    if s.startswith('fix:'):
        out.append('fixed: property=%s %s %s' % (MAP[h], h, s[5:]))
d['fixed'] = out
json.dump(d, open(path, 'w'), indent=1)
