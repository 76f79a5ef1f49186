#!/usr/bin/env python3
"""writes MANIFEST.json from the table below and properties.jsonl"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(R + '/properties.jsonl')]
CON = 'contract-based deductive verification of the compiled and run-time generated machine code (symbolic execution against per-routine contracts, polynomial normal forms and z3 linear arithmetic)'
BASE = 'Proof over all inputs in the declared ranges, for 3 curves x 2 code generation modes x with/without mulx. Trusted: the x86-64 semantics in engine/x86.py, z3, objdump decoding, g++.'
HL = 'Proof over all points and representatives: the compiled routines run on symbolic coordinates, callees replaced by their contracts; the contracts of the field routines used are re-proved in the same run. Trusted additionally: the token machine engine/tok.py.'
CLAIMS = {
 'C10': BASE, 'C13': BASE,
 'C52': 'Proof for every path and any number of loop iterations of every run-time generated routine, 12 configurations; word-array primitives for n = 1..12 words.  Termination of data-dependent loops is not part of this check. Trusted: instruction effects in engine/flow.py, objdump decoding.',
 'C30': HL, 'C32': HL,
 'C31': HL + ' Quick: fp254 and snark1 with mode 0; thorough: every configuration. mpz_class scalars up to 9 limbs, Vuint up to its capacity.',
 'C20': BASE, 'C21': BASE, 'C22': BASE, 'C23': BASE, 'C40': BASE,
}
PAIR = ('Proof for all points / field elements: the compiled pairing routines run on formal values (elements as formal products, points as multiples of their base point, lines as divisors), callees replaced by '
        'their contracts; those contracts and the number-theoretic lemmas are re-proved in the same run (quick: 4 of 12 configurations for the field contracts). Trusted additionally: Miller functions/Vercauteren theorem (stated in the evidence).')
CLAIMS.update({'C41': PAIR + '', 'C42': PAIR, 'C43': PAIR})
CLAIMS["C50"] = "Init has finitely many inputs (the supported curves x code paths, and the automatic choice): its postcondition - every constant and table entry satisfies its defining equation - is discharged by evaluation on the state of each of them. Trusted: nm symbol addresses."
CLAIMS["C51"] = "By induction over histories: after every history of up to three initialisations the constants satisfy the postcondition of Init for the last one and entry points and generated code are those of a fresh process, for which the other properties are proved; where code differs, the contracts are proved on it again."
CLAIMS['C24'] = BASE + ' The loop of compressed squarings is proved for every count n >= 1 by a loop invariant; decompression and fixed_power run on formal powers of one cyclotomic element (zero coordinates and the identity as cases). Trusted additionally: engine/tok.py.'
CLAIMS['C11'] = BASE + ' The loop of the almost inverse is proved for every x by ghost invariants (linear steps established on the machine code, preservation by polynomial identities); Fp::inv, division and square root over its contract. Trusted additionally: engine/tok.py, primality of p, Fermat.'
NOTYET = 'expressible in this technique (the routines are compiled C++ over run-time generated word-array primitives with at most 9 words, so sizes can be enumerated and each size proved on machine code), but the contracts were not built in the time available; nothing weaker is registered in their place'
NA = {
 'C01': NOTYET, 'C03': NOTYET, 'C06': NOTYET, 'C12': NOTYET, 'C05': NOTYET,
 'C02': 'the quotient estimate of VuintT::div goes through floating point (cvtsi2sd, divsd) with a correction loop: the verifier has no decision procedure for mixed floating-point and 576-bit integer arithmetic, so the loop invariant cannot be discharged; nothing weaker is registered in its place',
 'C04': 'conversion to and from text runs through std::string and iostream internals (allocation, locale, virtual calls); contracts for them would have to be assumed for the whole observable behaviour, so nothing of the property would be decided on the real code',
 'C33': 'reading and writing objects runs through std::istream/std::ostream internals, outside the reach of this verifier (see C04)',
 'C60': 'the wrappers are std::string conversions around core calls (SWIG header, not part of the built library); their observable behaviour is that of the text conversions of C04, which are out of reach',
}
exec(open(os.path.join(R, 'tools', 'claims.py')).read()) if os.path.exists(os.path.join(R, 'tools', 'claims.py')) else None
m = dict(version=1, setup_cmd='python3-vt -c "import z3"', checks=[], not_applicable=[])
for i in ids:
    if i in CLAIMS:
        m['checks'].append(dict(property=i, quick_cmd='python3-vt check.py %s quick' % i, thorough_cmd='python3-vt check.py %s thorough' % i,
                                technique=CON, level='proof', level_note=CLAIMS[i]))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'not built yet')))
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1)
