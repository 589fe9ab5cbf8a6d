"""Development aid: lines of /repo that the checks never execute.  python tools/cov.py [cases per facet]"""
import ast
import glob
import importlib
import io
import os
import sys
from contextlib import redirect_stdout

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pbt import core, env, known  # noqa: E402,F401

ROOT = '/repo/fixedIncome/src'
hit = {}
mon = sys.monitoring
mon.use_tool_id(3, 'cov')


def line(code, number):
    if code.co_filename.startswith(ROOT):
        hit.setdefault(code.co_filename, set()).add(number)
    return mon.DISABLE


mon.register_callback(3, mon.events.LINE, line)
mon.set_events(3, mon.events.LINE)
count = int(sys.argv[1]) if len(sys.argv) > 1 else 60
for path in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'pbt', 'props', 'c*.py'))):
    prop = importlib.import_module('pbt.props.' + os.path.basename(path)[:-3]).PROPERTY
    for facet in prop.facets:
        with redirect_stdout(io.StringIO()):
            result = core.Campaign(facet, min(count, facet.quick), 7, 120.0, known.matcher(prop.id, facet.name)).run()
        if result['failure'] or result['error']:
            print(prop.id, facet.name, result['failure'] or result['error'])

for base, _, names in os.walk(ROOT):
    for name in sorted(names):
        path = os.path.join(base, name)
        if not name.endswith('.py'):
            continue
        tree = ast.parse(open(path).read())
        for node in ast.walk(tree):
            if isinstance(node, (ast.FunctionDef,)):
                body = [n for n in node.body if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant))]
                lines = {s.lineno for b in body for s in ast.walk(b) if isinstance(s, ast.stmt)}
                missing = sorted(lines - hit.get(path, set()))
                if missing:
                    print(f'{path[len(ROOT) + 1:]}:{node.lineno} {node.name}: {"ALL" if len(missing) == len(lines) else missing}')
