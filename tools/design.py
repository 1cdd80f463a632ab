#!/usr/bin/env python3-vt
"""Fills the tables of DESIGN.md (between the markers) from registry, evidence and seeded."""
import json
import os
import re
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
import registry   # noqa: E402


def props():
    titles = {}
    with open(os.path.join(VERIF, 'properties.jsonl')) as f:
        for line in f:
            d = json.loads(line)
            titles[d['id']] = d['title']
    out = []
    for pid, p in registry.PROPS.items():
        cost = '?'
        e = os.path.join(VERIF, 'evidence', pid + '.json')
        if os.path.exists(e):
            with open(e) as f:
                cost = '%.0f s' % json.load(f).get('wall_s', 0)
        fns = []
        for i in p['quick'] + p['thorough']:
            n = i.mod[2:] + '.' + i.fn
            if n not in fns:
                fns.append(n)
        out.append('**%s %s.** Harnesses: `%s`. Bounds: %s. Outside: %s.%s Quick: %s.\n' % (
            pid, titles[pid], '`, `'.join(fns), p['bounds'], p['outside'],
            ' Assumes: ' + '; '.join(p['assumptions']) + '.' if p['assumptions'] else '', cost))
    return '\n'.join(out)


def bugs():
    res = {}
    r = os.path.join(VERIF, 'tools', 'bug_results.json')
    if os.path.exists(r):
        with open(r) as f:
            res = json.load(f)
    out = ['| bug | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
    for b in sorted(os.listdir(os.path.join(VERIF, 'seeded'))):
        with open(os.path.join(VERIF, 'seeded', b, 'meta.json')) as f:
            m = json.load(f)
        out.append('| %s | %s | %s | %s | %s |' % (b, m['property'], m['what_it_breaks'], m['needs'], res.get(b, '?')))
    return '\n'.join(out)


def main():
    path = os.path.join(VERIF, 'DESIGN.md')
    with open(path) as f:
        s = f.read()
    for name, text in (('TABLE', props()), ('BUGS', bugs())):
        s = re.sub(r'(<!-- %s -->).*?(<!-- /%s -->)' % (name, name), lambda m: m.group(1) + '\n' + text + '\n' + m.group(2), s,
                   flags=re.S)
    with open(path, 'w') as f:
        f.write(s)


main()
