"""Known findings: defects of the code under test that are recorded, not repaired."""
import json
import os

_FILE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')


def _load():
    try:
        with open(_FILE) as f:
            return {e['id']: e for e in json.load(f)['findings']}
    except FileNotFoundError:
        return {}


ACTIVE = _load()


def text(kid):
    return ACTIVE[kid]['what']
