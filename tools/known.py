"""known.py fixed PROP 'commit subject' 'what failed' | finding PROP SIG WHAT: add an entry to known_findings.json"""
import json, subprocess, sys
p = '/verif/known_findings.json'
d = json.load(open(p))
if sys.argv[1] == 'fixed':
    _, _, prop, subj, what = sys.argv
    h = next(l.split(' ', 1)[0] for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--oneline'], text=True).splitlines() if l.split(' ', 1)[1] == subj or l.split(' ', 1)[1] == 'fix: ' + subj)
    s = f"fixed: property={prop} {h} {what}"
    if s not in d['fixed']:
        d['fixed'].append(s)
else:
    _, _, prop, sig, what = sys.argv
    d['findings'] = [e for e in d['findings'] if (e['property'], e['signature']) != (prop, sig)] + [dict(property=prop, signature=sig, what=what)]
json.dump(d, open(p, 'w'), indent=1)
