"""Writes the per-property part of DESIGN.md: text from design_text.py, cases
from the harnesses, planted bugs from seeded/ and tools/caught.json."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, HERE + '/tools']
import design_text as D  # noqa: E402
from sx import case as C  # noqa: E402

MARK = '<!-- generated from here by tools/gen_design.py -->\n'


def main():
    props = [json.loads(x) for x in open(HERE + '/properties.jsonl')]
    head = open(HERE + '/DESIGN.md').read().split(MARK)[0]
    caught = json.load(open(HERE + '/tools/caught.json')) if os.path.exists(HERE + '/tools/caught.json') else {}
    bugs = {}
    for b in sorted(os.listdir(HERE + '/seeded')):
        m = json.load(open(f'{HERE}/seeded/{b}/meta.json'))
        bugs.setdefault(m['property'], []).append(b)
    out = [MARK, D.COMMON_LIMITS, '\n## Properties\n']
    for p in props:
        i = p['id']
        importlib.import_module('harness.' + i.lower())
        out.append(f"\n### {i} {p['title']}\n\n{D.T[i]}\n\n| case | what varies | quick | thorough | s |\n|---|---|---|---|---|\n")
        for c in C.CASES[i]:
            note = c.opts.get('note')
            sec = c.opts.get('seconds')
            th = {k: v for k, v in c.thorough.items() if c.quick.get(k) != v}
            out.append('| `%s` | %s | %s | %s | %s |\n' % (
                c.name, ' '.join((note or '').split()), _short(c.quick), _short(th) if th else 'same',
                '' if sec is None else sec))
        if i in bugs:
            out.append('\nPlanted bugs: ' + ', '.join(
                b + (f' ({caught[b]})' if b in caught else '') for b in bugs[i]) + '.\n')
    out.append(D.SCOPED_OUT)
    out.append(D.HISTORY)
    open(HERE + '/DESIGN.md', 'w').write(head.rstrip('\n') + '\n\n' + ''.join(out))


def _short(d):
    return ', '.join(f'{k}={v}' if len(str(v)) < 60 else f'{k}: {len(v)} kinds' for k, v in d.items()).replace('|', '\\|')


main()
