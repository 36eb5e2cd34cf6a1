#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(H, 'lib'))
TR = 'TLA+ specification checked with TLC; recorded runs of the real programs validated against it by TLC'
T = {
 'C01': (TR, 'GKRModel is exhausted over small fields; every recorded honest run (all gate types and operand pairs, shapes, degenerate and random challenges, chosen so that every gate/width combination occurs) must be a behaviour of GKR.tla that ends accepted. Bounded by the circuits generated.'),
 'C02': (TR, 'Every gate value of every layer computed by each prover is recomputed by Circuit.tla over the real prime. Bounded by the circuits generated.'),
 'C03': (TR + '; lying provers derived from the specification', 'The adversarial model is exhausted over the field of 3 elements (claims are only ever wrong after a lucky challenge); the real verifier is run against lying provers that violate exactly one equation of GKR.tla each, at every layer, phase and round, and its verdict must be the conjunction of the equations TLC recomputes.'),
 'C04': (TR, 'Every round polynomial and final value of the recorded runs is recomputed by GKR.tla from the circuit, the inputs and the challenges seen.'),
 'C05': (TR, 'The order of challenges and messages of recorded runs is checked against GKR.tla, which makes each challenge available only after the message it tests; independence is checked by flipping each random draw in turn (Fresh.tla).'),
 'C06': ('TLA+ limb-level models (Limb, LimbB) exhausted with TLC; recorded operations of the real code validated against Field.tla', 'The limb algorithms are exhausted with small limbs; about 100000 operations of the real code at limb and modulus boundaries are compared with exact arithmetic.'),
 'C07': (TR, 'The circuit handed to prover and verifier is compared with the file by Circuit.tla, for random layouts, one-gate layers and white space. Bounded by the files generated.'),
 'C08': (TR, 'As C01 and C04 for the per-copy program, with 1 to 4 copies.'),
 'C09': (TR + '; lying provers derived from the specification', 'As C03 for the per-copy program, lies in every copy.'),
 'C10': (TR, 'As C01 and C04 for the blocked program, with 1 to 8 copies.'),
 'C11': (TR + '; lying provers derived from the specification', 'As C03 for the blocked program, with copy-index rounds.'),
 'C12': (TR, 'ZK.tla recomputes every gate value, every decision equation and every opening of recorded honest runs of the real prover and verifier (all gate types, plain and data-parallel layers, degenerate challenges); group elements are tracked by discrete logarithm. Bounded by the circuits generated.'),
 'C13': (TR + '; lying provers derived from the specification', 'Each lie violates exactly one equation of ZK.tla, at every layer, phase, round, mask component and commitment component; the verdict of the real verifier must be the conjunction of the equations TLC recomputes.'),
 'C14': (TR, 'Every message of recorded honest runs must be the masked message ZK.tla computes from the masks the prover drew, and the draws must be fresh; pairs of runs (same randomness and other inputs, other randomness and same inputs and challenges) are compared by ZKPair.tla.'),
 'C15': ('TLA+ model of the commitment schemes (VPDModel) exhausted with TLC; recorded commitments, openings and altered ones of the real code validated by TLC', 'All polynomials, keys, points over the field of 3 elements in the model; several thousand openings of the real schemes, honest and altered in every component, judged by VPDTrace over the real group order. The pairing library is not in the repository: group elements are represented by their discrete logarithms.'),
 'C16': ('TLA+ oracle model (Transcript) exhausted with TLC; histories generated from it replayed on the real transcript; recorded runs validated by TLC', 'All shapes of up to 4 (thorough 5) operations with all combinations of two values per message, long histories with single-bit changes at every message, recorded runs of the whole program, and pairs of runs that differ in one message.'),
 'C17': (TR, 'Generated.tla evaluates the circuits written by the real generator for every mode and size up to 32/64 at random field points (a wrong polynomial identity survives with probability below 2^-240 per point) and checks shape and layout lines.'),
 'C18': (TR, 'TranslateModel exhausts all small programs; several hundred random programs are translated by the real tools and TLC evaluates program and circuit over the real prime. Bounded by the programs generated.'),
 'C19': (TR, 'As C18 for the data-parallel translator, with repetition structure checked gate by gate against the layout file.'),
 'C20': ('TLA+ thread model (Threads) exhausted with TLC; recorded runs of the real prover under forced thread schedules validated by TLC', 'All interleavings of the worker scheme are exhausted in the model; the real prover runs under controlled schedules with its memory footprints recorded per worker, and its messages must be those of GKR.tla.'),
 'C21': ('TLA+ model of SHA-256 and of its constraints (SHA256, SHAModel) exhausted in small with TLC; generated programs evaluated by TLC against it', 'The constraint outputs of the generated program are compared, as polynomials evaluated at random field points (a wrong one survives with probability below 2^-240), with those of SHA256.tla, and at the witnesses of real messages whose digests a library confirms; every wire of Merkle trees of up to 8 (thorough 32) leaves is compared with the tree. SHAModel shows, for words of 2 bits, that the constraints determine the digest.'),
}
import importlib
sys.argv = ['x']
from importlib import import_module
sys.path.insert(0, H)
import ast
mods = ast.literal_eval([l for l in open(os.path.join(H, 'check.py')) if l.startswith('MODULES')][0].split('=')[1].strip())
claimed = {}
for m in mods:
    claimed.update(import_module(m).CHECKS)
NA = {}
props = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if p in claimed:
        t, n = T[p]
        checks.append({'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p,
                       'technique': t, 'level': 'model_checking', 'level_note': n})
    else:
        na.append({'property': p, 'reason': NA.get(p, 'machinery not built yet')})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'TLA+ with TLC. Specifications in spec/, harnesses in harness/, drivers in lib/. No hooks in /repo: the harnesses compile its sources unchanged.'},
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', [x['property'] for x in na])
