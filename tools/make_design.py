#!/opt/venv/bin/python
""" Writes DESIGN.md from design_head.md, the checks, seeded/ and
design_tail.md.  Run: /opt/venv/bin/python tools/make_design.py """
import importlib
import json
import os
import sys
import textwrap

HERE = os.path.dirname(os.path.realpath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:0] = [ROOT, '/repo']

# What each check relies on as its oracle, and within what bounds.
ORACLE = json.load(open(os.path.join(HERE, 'oracles.json')))


def fill(text):
    return textwrap.fill(' '.join(text.split()), 78,
                         break_on_hyphens=False)


def section(prop):
    pid = prop['id']
    mod = importlib.import_module('checks.' + pid.lower())
    oracle, bounds = ORACLE[pid]
    loads = ', '.join('`%s` %d/%d' % (w.name, w.quick, w.thorough)
                      for w in mod.WORKLOADS)
    need = ', '.join('%s %d' % (k, v) for k, v in mod.REQUIRED.items())
    return '\n\n'.join([
        '### %s %s' % (pid, prop['title']),
        fill('*Specified.* ' + prop['statement']),
        fill('*Driven and monitored.* ' + mod.RULE),
        fill('*Oracle.* ' + oracle),
        fill('*Bounds.* ' + bounds + ' Cases (quick/thorough): '
             + loads + '. Must be seen: ' + need + '.'),
        fill('*Beyond the tests.* ' + prop['why_tests_cant']),
        '']) + '\n'


def seeded():
    rows = ['| bug | property / check that catches it | needs |',
            '| --- | --- | --- |']
    base = os.path.join(ROOT, 'seeded')
    for name in sorted(os.listdir(base)):
        meta = json.load(open(os.path.join(base, name, 'meta.json')))
        rows.append('| %s | %s | %s |' % (
            name, meta['property'], ' '.join(meta['needs'].split())))
    return '\n'.join(rows) + '\n'


def known():
    rows, fixed = [], []
    for line in open(os.path.join(ROOT, 'KNOWN_FINDINGS.txt')):
        line = line.strip()
        if line.startswith('finding:'):
            rows.append(fill('* ' + line[len('finding: '):]))
        elif line.startswith('fixed:'):
            fixed.append(line)
    return '\n'.join(rows) + '\n', len(fixed)


def main():
    props = [json.loads(x) for x in open(
        os.path.join(ROOT, 'properties.jsonl'))]
    head = open(os.path.join(HERE, 'design_head.md')).read()
    tail = open(os.path.join(HERE, 'design_tail.md')).read()
    rows, count = known()
    tail = tail.replace('@SEEDED@', seeded()).replace(
        '@KNOWN@', rows).replace('@FIXED@', str(count))
    with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as out:
        out.write(head.rstrip() + '\n\n' + ''.join(
            section(p) for p in props) + tail)


if __name__ == '__main__':
    main()
