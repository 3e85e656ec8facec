#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of claimed properties."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl') if l.strip()]
claimed = {
 'C01': "Seeded search over ceremonies, schedules, CPU counts, batch/buffer sizes and read chunkings; every output point is compared with the input scaled by the secrets recovered from the recorded entropy. Sampled, small powers (batch constants scaled down); trusts gnark-crypto's curve arithmetic.",
 'C02': "Seeded search over ceremonies with failing/crashing attempts; false rejections and wrong hash listings are violations. Sampled; small powers, chains up to 260 records.",
 'C03': "Seeded search over forged parameter sections (model-built, secrets known) under seeded schedules; an accepting verification is judged by an independent verifier. Sampled catalogue of forgeries at random positions; soundness error of random linear combinations ignored.",
 'C04': "Seeded search over forged record chains (model-built, secrets known); an accepting verification is judged by an independent verifier. Sampled catalogue of forgeries.",
 'C05': "Seeded search over circuits, phase-1 secrets, schedules and CPU counts; every byte written is compared with an independent QAP evaluation. Sampled; gnark's compiled constraint system is taken as the circuit.",
 'C06': "As C01 for phase-2 contributions.",
 'C07': "As C02 for phase-2.",
 'C08': "As C03 for phase-2.",
 'C09': "As C04 for phase-2.",
 'C10': "Seeded search over circuits and chains; extracted keys are compared point by point with an independent computation from the known secrets, and used to prove and verify. Sampled.",
 'C11': "Seeded search over circuits, dump part sizes and chains; parted initialisation is compared byte for byte with the regular one, split keys with an independent computation, the Solidity constants with the verifying key. Sampled; gnark's own readers of split dumps run on the real file system.",
 'C12': "Seeded search over schedules at statement granularity, CPU counts and batch sizes, comparing all outputs and verdicts with a sequential run using the same randomness; vector-clock-free: races show as differing results. Sampled schedules.",
 'C13': "Seeded search over storage faults at every kind of operation of every command; success under a fault must leave the fault-free output. Sampled fault positions (every position of short runs is likely hit).",
 'C14': "As C13 for input faults, plus verification that did not read its input in full must not accept.",
 'C15': "Seeded search over crash and power-loss points of every command with model of unsynced data, followed by verification, continuation and repetition. Sampled points.",
 'C16': "Seeded search with recorded and failing entropy: secrets and nonces are matched with draws, draws never shared, leaks searched in all outputs. Sampled; only plain big/little-endian/Montgomery encodings of secrets are searched for.",
 'C17': "Seeded search over synthetic external files with known secrets, powers and chains; points compared exactly, verification against right and wrong origins. Sampled.",
 'C18': "Seeded search over whole multi-party ceremonies on a virtual network with loss, duplication, reordering, corruption, crashes and adversaries; the transcript, keys and progress are checked against the coordinator's ledger. Sampled.",
 'C19': "Seeded search over damaged files and arguments; crashes, hangs and successes are violations. Sampled damage.",
}
missing = set(os.environ.get('UNCLAIMED', '').split())
checks, na = [], []
for p in props:
    i = p['id']
    if i in claimed and i not in missing:
        checks.append({'property': i, 'quick_cmd': f'./check {i}', 'thorough_cmd': f'VERIF_TIER=thorough ./check {i}',
            'evidence_file': f'evidence/{i}.json',
            'technique': 'deterministic simulation with fault injection (seeded search over schedules, inputs and faults against reference models)',
            'level': 'exploration', 'level_note': claimed[i]})
    else:
        na.append({'property': i, 'reason': 'its check is not built yet'})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks are committed in /repo: the simulator is compiled in through a build overlay generated from the working tree (sim/instr), so the shipped code is untouched.'}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
open(here + '/MANIFEST.json', 'a').write('\n')
