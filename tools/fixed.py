"""Rewrite the 'fixed:' lines of known_findings.jsonl from the fix commits of /repo (a development tool; no check runs it)."""
import subprocess, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {}
for line in open(os.path.join(V, 'tools', 'fixed.map')):
    if line.strip():
        k, t = line.rstrip('\n').split('|')
        MAP[t] = k
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h|%s']).decode().splitlines()
fn = os.path.join(V, 'known_findings.jsonl')
keep = [l for l in open(fn) if not l.startswith('fixed:')]
out = []
for l in log:
    h, s = l.split('|', 1)
    if s.startswith('fix: '):
        out.append('fixed: property=%s %s %s\n' % (MAP[s[5:]], h, s[5:]))
open(fn, 'w').writelines(keep + out)
