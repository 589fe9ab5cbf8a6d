"""Known findings: genuine defects that are recorded rather than repaired (committed file, never written by a check).

Each entry of /verif/known_findings.json's "findings" names the property, the facet and a predicate on the case: the
listed specific input, call site or history.  A failing case is attributed to a finding only if that predicate holds.
"""
import json
import os

from . import env

_PATH = os.path.join(env.VERIF, 'known_findings.json')


def _load():
    with open(_PATH) as handle:
        return json.load(handle)


def findings(property_id: str) -> list:
    return [f for f in _load().get('findings', []) if f['property'] == property_id]


def _matches(where: dict, case, message: str) -> bool:
    for key, expected in where.items():
        if key == 'message_contains':
            if expected not in message:
                return False
        else:
            value = case
            for part in key.split('.'):
                if isinstance(value, dict) and part in value:
                    value = value[part]
                else:
                    return False
            if value != expected:
                return False
    return True


def matcher(property_id: str, facet: str):
    entries = [f for f in findings(property_id) if f.get('facet') == facet]

    def match(case, message):
        for entry in entries:
            if _matches(entry['where'], case, message):
                return entry['id']
        return None
    return match
