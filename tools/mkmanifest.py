#!/usr/bin/env python3
"""Rewrites MANIFEST.json. usage: mkmanifest.py C01 C02 ... (the claimed properties)"""
import json, sys
claimed = sys.argv[1:]
m = json.load(open('/verif/MANIFEST.json'))
os_note = ("Seeded search, not proof: thousands of scenarios per run, each a distinct execution of the real make_pluralrules binary (built from /repo, statically linked) whose every system call is answered by a simulated "
  "kernel under seeded scheduling and fault injection; the reference is the library's generator run alone in a fresh process. Trusted: the simulated kernel's file, pipe and process semantics and the rustfmt stub.")
th_note = ("Seeded search, not proof: the real libraries and std compiled with every memory access and atomic instrumented; real threads run one at a time under a seeded scheduler that may switch at every access, "
  "with simulated clock, randomness and futexes and with failing, panicking and re-entering caller callbacks; the reference for each call is the same call alone in a fresh forked process. Data races are detected by vector clocks; weak memory is limited to atomic loads that return older values.")
m['setup_cmd'] = 'bash setup.sh'
m['checks'] = []
for p in claimed:
    isos = p <= 'C08' or p in ('C22', 'C23', 'C24', 'C26')
    m['checks'].append({
        'property': p, 'quick_cmd': 'bash check ' + p, 'thorough_cmd': 'VERIF_TIER=thorough bash check ' + p, 'evidence_file': 'evidence/%s.json' % p,
        'technique': 'deterministic simulation with fault injection (' + ('simulated operating system around the real command' if isos else 'seeded thread scheduler and faulty callers around the real libraries') + ')',
        'level': 'exploration', 'level_note': os_note if isos else th_note})
m['not_applicable'] = [n for n in m['not_applicable'] if n['property'] not in claimed]
m['notes'] = 'No hooks in /repo: the seams are the system-call boundary and compiler instrumentation. See DESIGN.md.'
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
