"""DESIGN.md from doc/front.md, the property entries, doc/back.md, known findings and seeded/."""
import glob
import json
import os


def write(here, props):
    out = [open(os.path.join(here, 'doc/front.md')).read(), '\n## The properties\n']
    na = []
    for d, tech, note, why_na in props:
        if why_na:
            na.append((d, why_na))
            continue
        out.append('### %s – %s\n' % (d['id'], d['title']))
        out.append(d['statement'] + '\n')
        out.append('*Quantified over* %s. *Why tests cannot settle it:* %s\n' % (d['quantifier']['text'], d['why_tests_cant']))
        out.append('*Decided by* %s. %s\n' % (tech, note))
        out.append('*Where:* %s.\n' % '; '.join('%s (%s)' % (m['name'], m['where']) for m in d['anchors']['mechanism']))
    out.append('## Not applicable to this family\n')
    for d, w in na:
        out.append('* **%s – %s.** %s' % (d['id'], d['title'], w))
    back = open(os.path.join(here, 'doc/back.md')).read()
    k = json.load(open(os.path.join(here, 'known_findings.json')))
    fx = ['* ' + s for s in k['fixed']] + ['* known finding, not repaired: ' + (s if isinstance(s, str) else json.dumps(s))
                                           for s in k['findings']]
    sd = []
    for m in sorted(glob.glob(os.path.join(here, 'seeded/*/meta.json'))):
        j = json.load(open(m))
        sd.append('* `%s` (%s, %s): %s' % (os.path.basename(os.path.dirname(m)), j['property'],
                                           j.get('caught', 'caught by the check of its property'), j['what_it_breaks']))
    out.append('\n' + back.replace('@FIXED@', '\n'.join(fx)).replace('@SEEDED@', '\n'.join(sd)))
    open(os.path.join(here, 'DESIGN.md'), 'w').write('\n'.join(out))
