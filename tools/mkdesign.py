"""Write DESIGN.md from tools/design.md, properties, evidence, seeds."""
import glob
import json
import os
import textwrap

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(*p):
    return json.load(open(os.path.join(HERE, *p)))


def wrap(s, indent=''):
    return textwrap.fill(' '.join(s.split()), 78, initial_indent=indent,
                         subsequent_indent=' ' * len(indent),
                         break_long_words=False, break_on_hyphens=False)


def main():
    props = [json.loads(x) for x in open(HERE + '/properties.jsonl')]
    manifest = load('MANIFEST.json')
    claimed = {c['property'] for c in manifest['checks']}
    out = {}
    out['FIXES'] = '\n'.join(
        wrap(x.replace('fixed: property=', ''), '* ')
        for x in load('known_findings.json')['fixed'])
    rows = []
    for d in sorted(glob.glob(HERE + '/seeded/*/meta.json')):
        m = json.load(open(d))
        rows.append(wrap('**%s** (%s, caught by that check): %s Needs: %s' % (
            os.path.basename(os.path.dirname(d)), m['property'],
            m['what_it_breaks'].rstrip('.') + '.',
            m['needs'].rstrip('.') + '.'), '* '))
    out['SEEDS'] = '\n'.join(rows)
    rows = ['| changes | tried with | caught | silent, as they should be | '
            'undecided |', '|---|---|---|---|---|']
    for f in sorted(glob.glob(HERE + '/mutants/*.jsonl')):
        ms = [json.loads(x) for x in open(f) if x.strip()]
        ch = sorted({c for m in ms for c in m['checks']})
        n = {k: sum(m['expect'] == k for m in ms)
             for k in ('caught', 'silent', 'undecided')}
        rows.append('| %s | %s | %d | %d | %d |' % (
            os.path.basename(f), ', '.join(ch), n['caught'], n['silent'],
            n['undecided']))
    out['MUTANTS'] = '\n'.join(rows)
    rows = []
    for p in props:
        if p['id'] not in claimed:
            continue
        rows.append('### %s %s\n' % (p['id'], p['title']))
        rows.append(wrap(p['statement']) + '\n')
        try:
            ev = load('evidence', p['id'] + '.json')
        except OSError:
            ev = None
        if ev:
            c = ev['coverage']
            ev['assumptions'] = [i for i in ev.get('assumptions') or ()
                                 if 'trusted base' not in i]
            rows.append(wrap('*Decided by:* ' + c['rule']) + '\n')
            if ev.get('assumptions'):
                rows.append(wrap('*Assumed:* ' + '; '.join(
                    ev['assumptions']) + '.') + '\n')
            rows.append(wrap('*Obligations:* %d over %d functions. '
                             '*Why not by tests:* %s' % (
                                 c['obligations'], c['functions_analysed'],
                                 p['why_tests_cant'])) + '\n')
        a = p['anchors']
        rows.append(wrap('*Anchored in:* %s: %s' % (
            ', '.join(i.replace('golem_messages/', '') for i in a['files']),
            ', '.join(i['name'] for i in a['mechanism']))) + '\n')
    out['PROPS'] = '\n'.join(rows)
    out['NA'] = '\n'.join(wrap('**%s**: %s' % (n['property'], n['reason']),
                               '* ') for n in manifest['not_applicable'])
    s = open(HERE + '/tools/design.md').read()
    for k, v in out.items():
        s = s.replace('{{%s}}' % k, v)
    open(HERE + '/DESIGN.md', 'w').write(s)


main()
