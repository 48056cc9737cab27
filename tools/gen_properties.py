#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for ids, titles and statements)."""
import json, os
S="neon_sim.cpp"; H="neon_sim.h"
def P(id,title,statement,over,qtext,why,mech,files=(S,H),state=(),observe=(),hook=None):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=list(files),state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],
        observe_at=list(observe) or ["value returned by the intrinsic / bytes at the destination pointer"],hook_needed=hook))
ps=[
P("N01","Structured loads put every memory element in its architectural lane",
 "For every implemented vldN, vldNq, vldN_dup and vldN_lane intrinsic and every memory content, lane i of register j of the result is element i*N+j of the addressed memory (the single addressed element for _dup; for _lane only the selected lane is replaced by element j and all other lanes keep the source register's value). Float elements are moved bit for bit, and only the addressed elements are read, at element alignment.",
 ["inputs"],"all memory contents, all source registers, all legal lane numbers, every element type",
 "Tests load two fixed arrays (vld1q_f32, vld1q_dup_f32); 2/3/4-way de-interleaving and the lane forms are never executed.",
 [("vld1*/vld2*/vld3*/vld4* loops",S+": section Load"),("declarations",H+": section 2 Load & Store")]),
P("N02","Structured stores write exactly the addressed elements, interleaved",
 "For every implemented vstN, vstNq and vstN_lane intrinsic and every register content, element i*N+j of the destination becomes lane i of register j (for _lane, element j becomes the selected lane of register j), bit for bit. Every byte of memory outside those elements is left exactly as it was.",
 ["inputs"],"all register contents, all previous memory contents, all legal lane numbers, every element type",
 "Tests store one float vector and one float lane; 3 of the integer interleaved stores were wrong on the pinned commit and the suite stayed green.",
 [("vst1*/vst2*/vst3*/vst4* loops",S+": section Store")],observe=["destination buffer and the bytes around it"]),
P("N03","A store followed by the matching load is the identity, and vice versa",
 "For every N and element type for which both directions are implemented, vldN(q) of the bytes just written by vstN(q) returns the stored registers exactly, and vstN(q) of registers just read by vldN(q) rewrites the memory unchanged. Splitting a quad register with vget_low/vget_high and rejoining it with vcombine is likewise the identity.",
 ["inputs","programs"],"all register and memory contents; call sequences of a store and a load (or split and combine) of the same shape",
 "No test composes a store with a load; a consistent-looking error in one direction needs the composition or every lane checked.",
 [("vldN/vstN pairs",S+": sections Load and Store"),("vget_low/vget_high/vcombine",S)]),
P("N04","Lanewise integer add, subtract, multiply and multiply-accumulate wrap",
 "For every implemented integer vadd, vsub, vmul, vmul_n, vmla and vmla_n intrinsic (64- and 128-bit) each result lane is the mathematical sum, difference, product or a+b*c of the corresponding lanes (scalar for _n) reduced modulo 2^(lane width), for every operand value, and depends on no other lane.",
 ["inputs"],"all values of all lanes of all operands",
 "Each family has at most two tests on small 8-bit values; wrap-around of the 16/32/64-bit lanes and the upper half of quad registers are not exercised.",
 [("vadd/vaddq/vsub/vsubq/vmul/vmulq/vmul_n/vmulq_n/vmlaq",S+": sections Vector Arithmetic, sub, vmul, vmlaq")]),
P("N05","Long and wide operations are exact in the double-width lane",
 "For every implemented vaddl, vaddl_high, vaddw, vaddw_high, vsubl, vsubw, vmovl, vpaddl, vmull, vmull_n, vmlal, vmlsl and vshll_n intrinsic, narrow operands are first extended to the double-width result lane according to their signedness and the operation is carried out there: the result is the exact value modulo 2^(result width), never a value computed at the narrow width. The _high forms use exactly the upper half of the quad operand.",
 ["inputs"],"all values of all lanes (and legal shift immediates)",
 "Tests use small 8-bit values; a product or sum truncated to 32 bits before widening only shows for large 32-bit operands.",
 [("vaddl/vaddw/vsubl/vsubw/vmovl/vpaddl/vmull/vmlal/vmlsl/vshll",S)]),
P("N06","Saturating operations return the exact result clamped to the lane range",
 "For every implemented saturating intrinsic (vqadd, vqsub, vqmovn, vqmovun, vqdmull, vqshrn_n, vqshrun_n, vqrshrun_n, 8 to 64 bit lanes) each result lane is the infinitely precise result clamped to the result type's minimum and maximum. In particular it is exact whenever it is representable, including near the 64-bit limits.",
 ["inputs"],"all values of all lanes and all legal shift immediates",
 "Only vqsub_u8/vqsub_s8 are tested, on 16 lane values; loss of precision or a wrong clamp shows only near the limits of wide lanes.",
 [("vqadd/vqsub/vqsubq/vqmovn/vqmovun/vqdmull/vqsh*",S)]),
P("N07","Narrowing operations keep the architectural half of the exact result",
 "For every implemented vaddhn_high, vsubhn, vrsubhn, vmovn, vshrn_n and vrshrn_n intrinsic each result lane is the stated half of the wide result: the upper half of the wrapped sum or difference (after adding the rounding constant for vr*), or the low half of the source, possibly shifted (and rounded). The _high forms keep the first operand unchanged in the lower half of the result.",
 ["inputs"],"all values of all lanes and all legal shift immediates",
 "Tests check the 16-bit forms on one vector each; the 32/64-bit forms used wrong shift counts on the pinned commit without any test failing.",
 [("vaddhn_high/vsubhn/vrsubhn/vmovn/vshrn_n/vrshrn_n",S)]),
P("N08","Halving subtraction never loses the carry",
 "For every implemented vhsub/vhsubq intrinsic each result lane is floor((a-b)/2) of the mathematical difference reduced modulo 2^(lane width), for every pair of operands, signed or unsigned, with no intermediate overflow.",
 ["inputs"],"all operand values of all lanes",
 "One test with eight 8-bit pairs; the 32-bit forms go wrong only when the difference does not fit 32 bits.",
 [("vhsub/vhsubq",S+": section sub")]),
P("N09","Shifts by an immediate agree with the architecture for every legal count",
 "For every implemented shift-by-immediate intrinsic (vshr_n, vshl_n, vsra_n, vshll_n, vshrn_n, vrshrn_n, vqshrn_n, vqshrun_n, vqrshrun_n) and every immediate in the architectural range, including both end points, each result lane is the arithmetic/logical shift (rounded, narrowed, saturated or accumulated onto the first operand as the name says) of the exact lane value. A legal immediate is never rejected.",
 ["inputs"],"all lane values times all legal immediates",
 "No shift intrinsic is called by any test.",
 [("vshr_n/vshlq_n/vsraq_n/vshll_n/vshrn_n/vrshrn_n/vqsh*_n",S+": sections shift right, shift left, saturated shift right and narrow")]),
P("N10","Bitwise operations and bit selection act on every bit independently",
 "For every implemented vand, vorr, veor, vmvn and vbsl intrinsic each result bit is the Boolean function of the operand bits at the same position and of nothing else; vbsl takes the bit of the second operand where the mask bit is 1 and of the third where it is 0, for every mask, float element types included.",
 ["inputs"],"all bit patterns of all operands, masks that are not all-ones/all-zeros included",
 "One test ANDs one vector; masks mixing ones and zeros within a lane are never used.",
 [("vand/vorr/veor/vmvn/vbsl",S)]),
P("N11","Permutations move every lane to its architectural place",
 "For every implemented vrev16/32/64, vtrn, vzip, vuzp, vext, vcombine, vget_low and vget_high intrinsic (and every legal immediate) the result is exactly the architectural permutation of the operand lanes: every result lane is a bit-for-bit copy of the prescribed source lane and every result lane is defined.",
 ["inputs"],"all lane values and all legal immediates, every element type, 64- and 128-bit",
 "Tests cover one type per family; on the pinned commit vrev32_s8 overran its result and vrev64q_s8/s16 left half the register unset with all tests green.",
 [("vrev*/vtrn*/vzip*/vuzp*/vext*/vcombine*/vget_low/high*",S)]),
P("N12","Table lookup returns the addressed byte, and zero out of range",
 "For every implemented vtbl1/2/4 and vqtbl1 intrinsic and every index byte 0..255, each result lane is the table byte at that index when the index is inside the table and zero otherwise. No byte outside the table is ever read.",
 ["inputs"],"all table contents and all 256^8 index vectors",
 "Tests use one table and in-range indices (one index equal to 8).",
 [("vtbl1/vtbl2/vtbl4/vqtbl1",S+": sections table lookup, vtbl*")]),
P("N13","Lane extraction and broadcast are bit-exact for every lane",
 "For every implemented vget_lane/vgetq_lane intrinsic and legal lane number the result is exactly that lane of the operand; for every implemented vdup_n/vdupq_n/vmovq_n intrinsic every lane of the result equals the scalar, bit for bit (NaN payloads included).",
 ["inputs"],"all register contents and scalars, all legal lane numbers, every element type",
 "Tests read lane 0 of a float register and broadcast a few small constants.",
 [("vget_lane/vgetq_lane/vdup_n/vdupq_n/vmovq_n",S)]),
P("N14","Reinterpretation preserves the register image bit for bit",
 "For every implemented vreinterpret/vreinterpretq intrinsic the 64 or 128 bits of the result equal the bits of the operand in little-endian lane order; reinterpreting to another type and back returns the original register for all bit patterns.",
 ["inputs"],"all 2^64 / 2^128 register images, float NaN patterns included",
 "No reinterpretation is called by any test.",
 [("vreinterpret*/vreinterpretq*",S+": section type conversion")]),
P("N15","Float/integer conversions round and saturate as the architecture says",
 "For every implemented vcvt/vcvtn conversion: float to integer truncates toward zero (vcvtn: rounds to nearest, ties to even), values beyond the integer range saturate to its limits and NaN converts to 0; integer to float rounds to nearest even. This holds for every input bit pattern, infinities, NaNs and negative inputs to unsigned conversions included.",
 ["inputs"],"all 2^32 bit patterns per lane",
 "No conversion is called by any test; host casts are undefined exactly where the architecture saturates.",
 [("vcvtq_f32_s32/vcvtq_s32_f32/vcvtq_u32_f32/vcvtnq_s32_f32",S)]),
P("N16","Float arithmetic is lanewise IEEE-754 single rounding per operation",
 "For every implemented float vadd, vsub, vmul, vmul_n, vdiv, vmla and vmla_n intrinsic each result lane is the IEEE-754 round-to-nearest-even result of the operation on the corresponding lanes in the lane's own precision (multiply then add, each rounded, for vmla); signed zeros, subnormals, infinities and NaN propagation included.",
 ["inputs"],"all bit patterns of all lanes, f32 and f64",
 "Tests use small exact values with a tolerance, so wrong rounding, operand order or precision cannot be seen.",
 [("vaddq_f32/vsub*_f*/vmul*_f*/vdiv*_f*/vmlaq*_f32",S)]),
P("N17","Minimum, maximum and comparison order lanes by their declared type",
 "For every implemented vmax, vmin, vpmax, vpmin, vcgt and vclt intrinsic, integer lanes are ordered by the signedness in the intrinsic's name and comparison results are all-ones or all-zeros. Float minimum/maximum return NaN when either input is NaN and treat -0 as less than +0; float comparisons with NaN are false.",
 ["inputs"],"all bit patterns of all lanes, every implemented type",
 "Only small positive floats are compared; unsigned lanes above the signed maximum, NaN and signed zero never occur.",
 [("vmaxq/vminq/vpmax/vpmin/vcltq/vcgtq",S)]),
P("N18","Reciprocal estimate and step match the architectural pseudocode bit for bit",
 "For every input lane the reciprocal estimate equals the architecture's 8-bit-table FPRecipEstimate result (zero, infinity, NaN, subnormal and very large inputs included), and the reciprocal step equals 2 - a*b with a single rounding, with infinity times zero yielding 2.",
 ["inputs"],"all 2^32 estimate inputs and all 2^64 step operand pairs per lane",
 "Tests check four small values with the default tolerance; special operands and rounding of the step are not reached.",
 [("FPRecipEstimate/RecipEstimate/float_parts/vrecpeq_f32/vrecpsq_f32",S+": section reverse and reverse square root")]),
P("N19","Related intrinsics agree with each other on all inputs",
 "For all inputs: quad forms equal the double forms applied to the two halves; _high forms equal the plain form applied to vget_high; accumulating forms equal the accumulator combined with the plain form; scalar (_n) forms equal the vector form with a broadcast scalar; subtraction undoes addition; inverse permutations (vrev twice, vuzp after vzip, vtrn twice, reinterpret back) are the identity; and where signedness cannot matter (loads, stores, permutations, wrapping and modular arithmetic, plain narrowing) the signed and unsigned forms agree bit for bit.",
 ["inputs","programs"],"all operand values, for every pair of implemented intrinsics related by one of these laws",
 "Tests never compare two intrinsics with each other.",
 [("families implemented as separate copies per type and width",S)]),
P("N20","Every legal call has fully defined behaviour and terminates",
 "For every implemented intrinsic, every operand value and every legal immediate, the call reads and writes only its operands, its destination and its own locals, never depends on an uninitialised value, returns a fully defined result, performs no operation undefined in C++ (signed overflow, out-of-range shift count, out-of-range float-to-integer cast, division by zero), does not abort, and terminates.",
 ["inputs"],"all operand values and legal immediates of every implemented intrinsic",
 "Tests run a handful of values without sanitizers; out-of-bounds or uninitialised lanes and overflow only show for particular types or values.",
 [("all function bodies",S)],observe=["sanitizer reports on a replay (ASan/UBSan/pattern-initialised locals)"]),
P("N21","Illegal lane numbers and shift counts are refused, never computed with",
 "For every implemented intrinsic that takes a lane number, extract position or shift count, a value outside the architectural range of that argument never returns a result: the call stops the program through abort before touching memory outside its operands. Values inside the range are accepted.",
 ["inputs"],"all 2^32 values of every immediate argument",
 "No test passes an illegal immediate; hardware intrinsics reject these at compile time, which the simulator cannot (README, known issue 4).",
 [("range checks with fprintf/abort",S)],observe=["process outcome of the call (abort or return)"]),
P("N22","Intrinsics are pure: same arguments, same result, no hidden state",
 "The result and memory effect of every implemented intrinsic depend only on its arguments and the memory they address: no sequence of earlier calls, to the same or to other intrinsics, changes what a call does. No intrinsic modifies memory other than its documented destination, memory passed as a source operand is left unchanged, the floating-point control state (rounding mode, flush-to-zero) and errno are left as they were, and a call writes no output and leaves no memory allocated.",
 ["histories","inputs"],"all call histories, all operand values",
 "Each test calls an intrinsic once in a fresh process.",
 [("absence of mutable static state in all function bodies",S)],state=[("(none)","the library keeps no mutable state",S)]),
P("N23","Vector types are exact register images",
 "Every vector type T x N occupies exactly its register's bytes with lane i at byte offset i*sizeof(T), without padding, so that brace-initialised lanes, the val[] members and the memory image agree; every array type xK is exactly K consecutive registers. This holds for all lane values and all 64/128-bit and x2/x3/x4 types.",
 ["inputs"],"all lane values of every declared vector and vector-array type",
 "Tests brace-initialise a few types; the array types and most element types are never laid out in memory.",
 [("struct definitions",H+": section 1 vector register type definition")],files=(H,)),
P("N24","Mismatched vector types are rejected at compile time",
 "Passing a vector or pointer of one element type where an intrinsic expects another is a compile-time error, while the documented initialiser-list and reinterpret forms compile.",
 ["programs"],"all ill-typed uses of the intrinsics",
 "Tests contain only well-typed programs.",
 [("one distinct struct type per element type and length",H)],files=(H,),observe=["compiler diagnostics"]),
P("N25","Concurrent calls do not interfere",
 "Every implemented intrinsic may be called from several threads at the same time on data of their own: no call performs an unsynchronised write to storage that another call also accesses, so every interleaving of calls gives each caller the result it would get alone.",
 ["schedules","inputs"],"all interleavings of concurrent calls, all operand values",
 "The test program is single-threaded; interference through a shared scratch buffer or table needs a particular interleaving.",
 [("absence of shared writable storage in all function bodies",S)],state=[("(none)","the library keeps no state shared between threads",S)]),
P("N26","Lanes depend only on their own elements and compute the same function",
 "In every implemented intrinsic each result lane (and each stored element) is unaffected by any operand element other than those the architecture combines into it, so lanes holding garbage, padding or NaN never disturb their neighbours. Lanes which the architecture computes by the same function give equal results whenever their own elements are equal, whatever their position in the register.",
 ["inputs"],"all values of own and foreign operand elements, all lane positions, all legal immediates",
 "Tests fill whole registers with related values once; cross-lane leakage shows only when a foreign lane holds a triggering value.",
 [("per-lane loops of all function bodies",S)]),
P("N27","Programs composed of intrinsics compute what their scalar equivalents compute",
 "Typical SIMD kernels written with the implemented intrinsics (channel swaps and grey conversion, alpha blending, exact division by 255, thresholds, clamping, dot products, complex multiplication, transposes, byte-order conversion, sums of absolute differences, filters, 64-entry lookup, population count, fixed-point and float conversions, and others), and the plain array loop over consecutive blocks for every implemented intrinsic except the reciprocal estimate and step, produce, for every input, exactly the result of the plain scalar loop they replace.",
 ["programs","inputs"],"all inputs of each kernel",
 "Tests call one intrinsic at a time on one vector; kernels chain loads, widening, narrowing, permutation and stores, so operands there take every value and every intermediate layout matters.",
 [("public API",H),("all function bodies used by the kernels",S)]),
P("N28","C callers and C++ callers get the same intrinsics",
 "neon_sim.h is a valid C header and every implemented intrinsic has C linkage: called from a C program (C99 to C23, with or without GNU extensions) it takes the same operands and gives, for every operand value and legal immediate, bit for bit the same result and memory effect as called from C++. Every vector and vector-array type has in C the size, the lane order and the brace-initialiser meaning it has in C++.",
 ["inputs","programs"],"all operand values and immediates of every implemented intrinsic, all lane values of every type, callers in C99, C11, C17 and C23",
 "All tests are C++; a declaration outside the extern \"C\" block, a type or prototype that differs by language, or C++-only syntax in the header goes unnoticed.",
 [("extern C block, type definitions and prototypes",H),("all function bodies",S)],files=(H,S)),
P("N29","The caller's rounding mode affects float arithmetic only",
 "Under every rounding mode the calling program may have set with fesetround, the float vadd, vsub, vmul, vdiv, vmla, vrecps and integer-to-float vcvt intrinsics round in that mode, as on the architecture; every other implemented intrinsic, float-to-integer conversion (toward zero for vcvt, to nearest with ties to even for vcvtn), minimum, maximum, comparison and all integer operations included, returns for every operand exactly what it returns in the default mode. The reciprocal estimate is left out.",
 ["inputs","configurations"],"the three non-default rounding modes, all operand bit patterns, all legal immediates",
 "Tests run in the default mode only, where rounding through rint, nearbyint or a float temporary cannot be told from what the architecture prescribes.",
 [("vcvtnq_s32_f32, vcvtq_s32_f32 and the other conversions",S),("float arithmetic and all integer function bodies",S)]),
P("N30","Intrinsics work before main and while the program ends",
 "Every implemented intrinsic gives the same results when it is called from the initialiser of a namespace-scope object of the caller, before anything in the library's own translation unit has been initialised (static const float32x4_t one = vdupq_n_f32(1)), and from a destructor or exit handler, after every object the library created has been destroyed, as when it is called from main: it returns, stays within live memory and delivers the same bits.",
 ["inputs","histories"],"all operand bit patterns, all legal immediates, calls before the library's initialisers and after its destructors",
 "Tests call everything from main; the order of initialisation and destruction across translation units is outside what they see.",
 [("every function body; namespace-scope and function-static objects",S)]),
P("N31","Results do not depend on the build configuration",
 "Every implemented intrinsic gives the same results, and refuses illegal immediates in the same way, whether the library and its caller are built for debugging or release (NDEBUG defined or not, any of -O0, -O2, -O3, -Os), by g++ or clang++, as C++11 or C++20, with plain char signed or unsigned, with the standard library's assertions on, and with or without AVX2; a caller built in any of these configurations works with a library built the way the repository builds it.",
 ["inputs","configurations"],"all operand bit patterns, all 32-bit immediates, the configurations named in the statement",
 "The tests are built and run in one configuration only; text under #ifdef, assert or a plain char behaves differently in builds no test sees.",
 [("every function body; conditional compilation; type definitions",S),("type definitions of the interface","neon_sim.h")]),
P("N32","Results do not depend on the platform",
 "Every implemented intrinsic gives the same results, stays within the same memory and refuses the same immediates on every little-endian platform the library compiles for (\"real cross-platform, no SSE\"): 32-bit platforms where int, long and pointers have 32 bits, 64-bit Windows where long has 32 bits, and 64-bit Unix; x86 and Arm and RISC-V; plain char signed or unsigned; long double of any format; with the predefined macros of that platform, so that text under #ifdef __SSE2__ or __x86_64__ and its portable alternative agree.",
 ["inputs","configurations"],"all operand bit patterns, all 32-bit immediates, the five platforms ILP32 x86, LLP64 x86-64, LP64 AArch64, ILP32 Armv7, LP64 RISC-V",
 "The tests run on one 64-bit x86 platform; widths of long, the sign of char and code for other platforms never show there.",
 [("every function body; platform-conditional text",S)]),
]
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in ps: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(ps))
