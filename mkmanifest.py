#!/usr/bin/env python3
# Writes MANIFEST.json from checkconf.py and properties.jsonl.
import json
from checkconf import CONF
PURE = 'a pure single-threaded function of its arguments: no scheduling, time, I/O, randomness or failure for a simulator to control'
REASON = {
 'C30': PURE + ' (the name mapping is exercised through C02/C08 with awkward names, but deciding it for all names is input exploration, not simulation)',
 'C31': PURE, 'C32': PURE, 'C33': PURE + ' (parsing one TOML string)', 'C34': PURE,
}
props = [json.loads(l) for l in open('properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CONF:
        c = CONF[i]
        checks.append(dict(property=i, quick_cmd='./check %s' % i, thorough_cmd='./check %s --tier thorough' % i,
            evidence_file='evidence/%s.json' % i,
            technique='deterministic simulation with fault injection: seeded search over schedules, crash points and faults (scenario %s)' % c['scenarios'] + (', with the race detector on the simulated schedules' if c.get('race') else ''),
            level='exploration',
            level_note=c.get('note', 'Held on every simulated run of a seeded random search (tens of thousands per quick check); runs the real code at statement granularity under a simulated scheduler, clock, file system and network. Trusts the simulator, the reference model and that the sampled plans are representative; no exhaustiveness.')))
    else:
        na.append(dict(property=i, reason=REASON.get(i, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='./setup.sh',
    hooks=dict(guard='none: instrumentation is applied to a generated copy', enable='simtool gen rewrites a copy of the non-test sources of /repo (statement-level yield points, simulated sync/os/net/time packages) into a scratch directory and builds it there; /repo carries no hooks', source_commits=[]),
    checks=checks, not_applicable=na,
    notes='See DESIGN.md. ./check --replay FILE reproduces a reported violation.'), open('MANIFEST.json', 'w'), indent=1)
