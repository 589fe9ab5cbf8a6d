"""Rewrites the counts (second column) of the table of properties in DESIGN.md and its matrix of planted bugs.

The matrix is read from seeded/*/meta.json and tools/catches.json ({id: [facets that reported it]}); no check reads either."""
import glob
import importlib
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from pbt.run import QUICK_FACTOR  # noqa: E402


def counts(pid):
    module = importlib.import_module(f'pbt.props.{pid.lower()}')
    return ', '.join(f'{f.name} {f.quick * QUICK_FACTOR.get(pid, 4)}/{f.thorough}' for f in module.PROPERTY.facets)


def main():
    path = os.path.join(ROOT, 'DESIGN.md')
    text = open(path).read()
    text = re.sub(r'^\| (C\d\d) \| [^|]* \|', lambda m: f'| {m.group(1)} | {counts(m.group(1))} |', text, flags=re.M)
    catches = json.load(open(os.path.join(ROOT, 'tools', 'catches.json')))
    rows = ['| planted bug | needs | reported by |', '|---|---|---|']
    for meta in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
        name = os.path.basename(os.path.dirname(meta))
        data = json.load(open(meta))
        rows.append(f'| {name} | {data["needs"].strip()} | {", ".join(catches.get(name, [])) or "not reported"} |')
    block = '<!-- matrix -->\n' + '\n'.join(rows) + '\n<!-- end -->'
    text = re.sub(r'<!-- matrix -->.*<!-- end -->', lambda m: block, text, flags=re.S)
    open(path, 'w').write(text)


main()
