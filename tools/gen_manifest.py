#!/usr/bin/env python3
"""Writes MANIFEST.json from the property list (run after editing either)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
BASE = ('Symbolic execution of the LLVM IR that clang makes from the current neon_sim.cpp; z3 decides, over all operand bit patterns at once, '
        'that %s. Loops run to completion (no unrolling cut), so within the implemented intrinsics the verdict is exhaustive; anything not decided in '
        'the time budget is printed as UNDECIDED and recorded in the evidence, never counted as held. Trusted: clang -O0 lowering, the executor and its '
        'models of libc/libm, z3. Every violation is replayed on the real code before it is reported; concrete vectors go through encoding and native library each run.')
WHAT = {
 'N19': 'both sides of each of the algebraic laws of neonv/laws.py are bit-identical',
 'N03': 'each store/load and split/join round trip is the identity',
 'N20': 'no memory, overflow, shift, cast, division or initialisation obligation can fail and every path returns',
 'N21': 'every one of the illegal 32-bit immediates reaches abort with no access outside the operands, and no legal one does',
 'N22': 'source operands are unchanged and no result depends on storage that outlives a call (arbitrary contents first, then bounded call histories), that no call writes output or leaves memory allocated, another floating-point mode set or errno changed',
 'N25': 'no satisfiable path of any call performs an unsynchronised write to storage shared between threads',
 'N26': 'no result lane changes when operand elements foreign to it are replaced by fresh variables, and lanes with the same architectural function agree on equal inputs',
 'N27': 'both sides (SIMD kernel, scalar loop) of each program prog_* of neonv/laws.py and neonv/kernels.py are bit-identical',
 'N28': 'wrappers compiled as C (gnu99, c99, c11, gnu17, c2x) and as C++11 around the same intrinsic leave bit-identical results and memory, and that every type initialised lane by lane in C has the register image',
 'N29': 'in each of the three non-default rounding modes float arithmetic equals the oracle rounded in that mode and everything else equals the oracle of the default mode',
 'N30': 'a call made with none of the library\'s initialisers run, and one made after all its registered destructors, equals the call made in between and meets no safety obligation',
 'N31': 'the library encoded with the predefined macros, language and options of each listed configuration, and a caller encoded that way against the library of the repository\'s own build, give what that build gives, illegal immediates included',
 'N32': 'the library as the front end for each of five other platforms (ILP32 x86, LLP64 x86-64, AArch64, Armv7, RISC-V) translates it gives what the repository\'s own build gives, illegal immediates included',
 'N23': 'lanes, val[] members, brace initialisers and memory images of every vector type denote the same bits',
}
NA = {'N24': 'Whether a mismatched call compiles is decided by the C++ type checker before any code exists; there is no input, value or path to make '
             'symbolic, so a solver has nothing to decide. (The positive half, that every implemented intrinsic accepts exactly its architectural '
             'parameter types, is exercised by the generated wrappers of all other checks, which must compile against /repo.)'}
checks = []
for p in P:
    i = p['id']
    if i in NA: continue
    checks.append(dict(property=i, quick_cmd='python3-vt check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3-vt check.py ' + i,
        evidence_file='evidence/%s.json' % i, technique='symbolic execution of LLVM IR + SMT (z3), counterexamples replayed natively',
        level='model_checking', level_note=BASE % WHAT.get(i, 'each result lane and each addressed memory element equals an independent statement of the architecture (neonv/spec.py) for every operand value and every legal immediate')))
m = dict(version=1, setup_cmd='python3-vt -c "import z3" && clang++ --version && g++ --version', checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes='One driver (check.py) decides all properties; see DESIGN.md. No hooks in /repo.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(H, 'MANIFEST.json'), 'a').write('\n')
