"""Regenerate the tables of DESIGN.md (between markers) from the contracts, claims.py and seeded/*/meta.json."""
import json
import os
import re
import sys
sys.setrecursionlimit(100000)
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [R, os.path.join(R, 'engine')]
import allspecs  # noqa
from verify import SPECS
HOW = {
    'C01': 'postcondition of Encrypt: parts, level, flag and every limb equal to `u*pk + e (+ plaintext)` with exactly one ternary and two Gaussian draws, for the four domain combinations; the scheme encryptors over it and the encoder (uninterpreted).',
    'C02': 'postcondition of Decrypt/PartialDecrypt: the result is `c0 + sum over the parties of c_i*s_i` (a sum over an unbounded map), refusal condition "must panic iff some part is left", frame: ciphertext and keys untouched, decryptor state irrelevant (scratch is havocked before and after).',
    'C03': 'postcondition of AddNew/SubNew: scale, level, party set and each limb per membership case (both, one, other), with the scale-matching constant as a floor of a quotient of reals; alias mode op0 is op1.',
    'C04': 'as C03 without scales.',
    'C05': 'postcondition of MulAndRelin(Hoisted): every limb of every part equals the tensor component plus the external products with the accumulated vectors, all sums over parties and digits symbolic; levels, refusal, and MulRelinNew/Rescale over that contract. The phase statement follows by substituting the key equations of C11 (linear algebra over the contracts; see 2.1).',
    'C06': 'as C05 with lift, rescale and quantization contracts of C13 and both halves of the keys.',
    'C07': 'Rotate and RotateNew: automorphism of each part plus external products; the bit loop of RotateNew is extracted as a step function whose contract is verified, its iterate is the contract of the loop (2.2).',
    'C08': 'Conjugate/ConjugateNew: automorphism with the conjugation bit, at every level.',
    'C09': 'the hoisted functions have the same contract terms as the direct ones with the digits taken from the hoisted form; modes for every combination of nil and non-nil forms and for squares.',
    'C10': 'secret and public keys: one draw, the same polynomial under all primes (basis-extension contract), `pk0 + pk1*s = e` under every prime, reference unchanged.',
    'C11': 'each key entry equals its gadget expression in every digit under every prime, with a fresh draw per digit (draws are tagged by call occurrence and loop index), keys and reference unchanged; default rotation keys by the fold of 2.2.',
    'C12': 'Decompose and ExternalProduct at every level: digit count, the digits as `lift` of the group, sum over digits divided by P; DecomposeAndSplit itself word by word against its tables, the tables against their definition, over Q and over R (2.3).',
    'C13': 'ModUp/ModDown (both directions), Quantize, Rescale, ModUpQtoR the kernels modUpExact, reconstructRNS and multSum word by word, and every table they use (2.3).',
    'C14': 'Rescale: the number of divisions is the least n with the loop condition false (an unbounded `least` term), scale the product of quotients, limbs the rounded quotient; errors leave everything unchanged; DropLevel cuts every part alike.',
    'C15': 'MultByConst for every constant type (one mode each), getConstAndScale, scaleUpExact, MulPtxtNew.',
    'C16': 'set and map operations as exact effects on map domains; must-panic conditions for absent keys and the reserved id.',
    'C17': 'NewParameters, AddCRS, Alpha, Beta; the reference vectors are draws distinct per index, digit and prime.',
    'C18': 'frame conditions of every contract above (anything not mentioned must not change), freshness of results (every limb of a result is in a new object), and scratch independence (scratch pools are arbitrary in the pre-state and do not occur in results).',
    'C19': 'constructors, copies, padding as exact effects.',
    'C20': 'ciphertexts are abstracted to slot vectors through the contracts of C03, C05, C07, C09 and C15; the layers must return the documented linear map, for any number of matrix rows.',
}


def table_props():
    props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
    from claims import BOUNDED
    out = []
    for p in props:
        i = p['id']
        fs = [n + (' (bounded)' if s.trusted else '') for n, s in SPECS.items() if i in s.props]
        out.append('* **%s %s.** %s\n  Functions: %s.%s' % (i, p['title'], HOW[i], ', '.join('`%s`' % f for f in fs), ('\n  Bounded stand-in: ' + BOUNDED[i] + '.') if i in BOUNDED else ''))
    return '\n'.join(out)


def table_seeds():
    out = ['| change | property | needs | breaks |', '|---|---|---|---|']
    d = os.path.join(R, 'seeded')
    for i in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, i, 'meta.json')))
        out.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'], m['what_it_breaks']))
    return '\n'.join(out)


f = os.path.join(R, 'DESIGN.md')
t = open(f).read()
for name, fn in (('PROPS', table_props), ('SEEDS', table_seeds)):
    t = re.sub(r'<!-- %s -->.*?<!-- /%s -->' % (name, name), lambda m: '<!-- %s -->\n%s\n<!-- /%s -->' % (name, fn(), name), t, flags=re.S)
open(f, 'w').write(t)
