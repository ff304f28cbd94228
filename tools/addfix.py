"""Records the fix commits of /repo in known_findings.json:  addfix.py PROPERTY 'grep of the commit' 'what failed'"""
import json, subprocess, sys
prop, grep, txt = sys.argv[1:4]
k = json.load(open('/verif/known_findings.json'))
h = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h', '--grep', grep]).decode().split()[0]
k.append(dict(id="F%02d" % (len(k) + 1), property=prop, status="fixed", line="fixed: property=%s %s %s" % (prop, h, txt)))
json.dump(k, open('/verif/known_findings.json', 'w'), indent=1)
print(k[-1]["line"])
