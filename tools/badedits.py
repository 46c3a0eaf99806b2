"""Which mutants of FILE do not apply: python3 tools/badedits.py FILE"""
import runpy, sys
for m in runpy.run_path(sys.argv[1])['M']:
    n = open('/repo/' + m[2]).read().count(m[3])
    if n != 1:
        print(m[0], n)
