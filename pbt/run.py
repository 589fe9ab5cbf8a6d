"""python -m pbt.run C01 [--tier quick|thorough] [--replay FILE] [--facet NAME] [--scale X]"""
from . import env  # noqa: F401  (first)

import argparse
import importlib
import json
import os
import sys
import time
from collections import Counter

from . import core, known


QUICK_FACTOR = {'C10': 3, 'C12': 4, 'C18': 2, 'C21': 4, 'C28': 3}     # multiplies the quick counts of the facets; 4 for the others


def main() -> int:
    parser = argparse.ArgumentParser()
    parser.add_argument('property')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=('quick', 'thorough'))
    parser.add_argument('--replay')
    parser.add_argument('--facet', action='append')
    parser.add_argument('--scale', type=float, default=1.0, help='multiplies the number of cases (development)')
    args = parser.parse_args()
    started = time.monotonic()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')

    module = importlib.import_module(f'.props.{args.property.lower()}', __package__)
    prop = module.PROPERTY
    facets = [f for f in prop.facets if not args.facet or f.name in args.facet]

    if args.replay:
        return replay(prop, args.replay)

    budget, total = (200.0, 420.0) if args.tier == 'quick' else (2400.0, 14400.0)   # per shard of a facet, altogether
    campaigns = []
    for facet in facets:
        count = facet.quick if args.tier == 'quick' else facet.thorough
        shards = facet.quick_shards if args.tier == 'quick' else facet.thorough_shards
        if args.tier == 'quick':
            count *= QUICK_FACTOR.get(prop.id, 4)
            shards = 8 if count >= 400 else shards
        count = max(1, int(count * args.scale))
        for shard in range(shards):
            per = count // shards + (1 if shard < count % shards else 0)
            own = facet if shard == 0 else core.Facet(**{**facet.__dict__, 'examples': []})
            campaigns.append(core.Campaign(own, per, core.seed_for(seed, prop.id, facet.name, shard), budget,
                                           known.matcher(prop.id, facet.name), started + total))
    results = core.run_campaigns(campaigns)

    per_facet, errors, violations, known_hits = {}, [], [], Counter()
    for facet in facets:
        own = [r for r in results if r['facet'] == facet.name]
        distinct = set().union(*[r['distinct'] for r in own])
        labels = Counter()
        for r in own:
            labels.update(r['labels'])
            for key, value in r['known'].items():
                known_hits[key] += value
        evaluations = sum(r['evaluations'] for r in own)
        per_facet[facet.name] = {
            'evaluations': evaluations, 'distinct_nontrivial': len(distinct),
            'rejected_out_of_domain': sum(r['rejected'] for r in own), 'rule': facet.rule,
            'requested': sum(r['requested'] for r in own) + len(facet.examples),
            'labels': dict(sorted(labels.items())), 'budget_hit': any(r['budget_hit'] for r in own),
            'cpu_s': round(sum(r['wall_s'] for r in own), 2)}
        for r in own:
            if r['error']:
                errors.append((facet.name, r['error']))
        failures = [r['failure'] for r in own if r['failure']]
        if failures:
            best = min(failures, key=lambda f: (len(core.canonical(f['case'])), core.canonical(f['case'])))
            violations.append((facet.name, best))
        elif not args.facet and args.scale == 1.0 and evaluations and len(distinct) == 0:
            errors.append((facet.name, 'vacuous: no non-trivial case was generated'))

    lines = []
    for name, failure in violations:
        path = os.path.join('replays', f'{prop.id}-{name}-{core.seed_for(0, failure["case"]):014x}.json')
        full = os.path.join(env.VERIF, path)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, 'w') as handle:
            json.dump({'property': prop.id, 'facet': name, 'message': failure['message'], 'seed': seed,
                       'case': failure['case'], 'replay': f'python -m pbt.run {prop.id} --replay {path}'},
                      handle, indent=1, default=str)
        print(f'{prop.id}/{name}: {failure["message"]}')
        print(f'  case: {core.canonical(failure["case"])[:1500]}')
        lines.append(f'VIOLATION property={prop.id} replay={path}')

    samples = []
    for facet in facets:
        for r in results:
            if r['facet'] == facet.name and r['samples']:
                samples.append({'facet': facet.name, 'case': r['samples'][-1]})
                break
    evidence = {
        'property': prop.id, 'tier': args.tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(f['evaluations'] for f in per_facet.values()),
            'distinct_nontrivial': sum(f['distinct_nontrivial'] for f in per_facet.values()),
            'rule': 'cases are drawn by Hypothesis per facet (see facets); non-trivial per facet: '
                    + '; '.join(f'[{f.name}] {f.rule}' for f in facets),
            'samples': samples, 'facets': per_facet, 'known_findings_hit': dict(known_hits)},
        'assumptions': prop.assumptions, 'wall_s': round(time.monotonic() - started, 2),
        'violations': len(violations)}
    os.makedirs(os.path.join(env.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(env.VERIF, 'evidence', f'{prop.id}.json'), 'w') as handle:
        json.dump(evidence, handle, indent=1, default=str)

    for finding in known.findings(prop.id):
        print(f'KNOWN-FINDING: property={prop.id} {finding["what"]}')
    for name, text in errors:
        print(f'ERROR in {prop.id}/{name}:\n{text}', file=sys.stderr)
    for line in lines:
        print(line)
    total = evidence['coverage']
    print(f'{prop.id}: {total["evaluations"]} cases, {total["distinct_nontrivial"]} distinct non-trivial, '
          f'{len(violations)} violation(s), {evidence["wall_s"]} s '
          f'({", ".join(f"{k} {v["cpu_s"]}s" for k, v in per_facet.items())})')
    if lines:
        return 1
    return 2 if errors else 0


def replay(prop, path: str) -> int:
    with open(path) as handle:
        data = json.load(handle)
    facet = next(f for f in prop.facets if f.name == data['facet'])
    try:
        core.run_case(facet, data['case'], core.Recorder())
    except core.Violation as exc:
        print(f'{prop.id}/{facet.name}: {exc}')
        print(f'VIOLATION property={prop.id} replay={path}')
        return 1
    except core.Reject as exc:
        print(f'the case is outside the domain: {exc}')
        return 0
    print(f'{prop.id}/{facet.name}: the case passes')
    return 0


if __name__ == '__main__':
    sys.exit(main())
