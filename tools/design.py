#!/usr/bin/env python3
"""Writes DESIGN.md: the prose below, and per-property sections filled in from properties.jsonl, evidence/ and seeded/."""
import json, os, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
ev = {}
for p in props:
    f = f"{here}/evidence/{p['id']}.json"
    if os.path.exists(f): ev[p["id"]] = json.load(open(f))
# the numbers are those of one measured run, kept beside this script: evidence/ is rewritten by every run
meas_file = f"{here}/tools/measured.json"
meas = json.load(open(meas_file)) if os.path.exists(meas_file) else {}
for i, e in ev.items():
    if e.get("tier") != "quick" or e.get("seed") != 1: continue
    c = e["coverage"]
    meas[i] = {"cases": c["evaluations"], "distinct": c["distinct_nontrivial"], "wall": e.get("wall_s"), "ratio": max([t.get("max_error_over_bound") or 0 for t in c.get("tasks", [])] or [0])}
json.dump(meas, open(meas_file, "w"), indent=1, sort_keys=True)
bugs = {}
for f in sorted(glob.glob(f"{here}/seeded/*/meta.json")):
    bugs.setdefault(json.load(open(f))["property"], []).append(f.split("/")[-2])

# id: (what is generated and against which oracle, why that reaches what the tests cannot)
D = {
"C01": ("all 2^32 bit patterns in order; std's `trunc`, `floor`, `ceil`, `round`, compared by value", "a slip at 2^23, 2^31, 0.49999997 or in the subnormals is one pattern in four billion"),
"C02": ("all 2^32 patterns; std's `fract`, and `trunc + fract == x`", "as C01"),
"C03": ("all 2^32 patterns, each against six partners, and generated pairs; the bits themselves", "NaN payloads and signed zeros"),
"C04": ("all 2^32 patterns; f64 `sin`, `cos`", "argument reduction fails at scattered large arguments"),
"C05": ("all 2^32 patterns; f64 `tan`", "the neighbourhoods of all 652 poles"),
"C06": ("all 2^32 patterns; f64 `atan`, exact oddness", "overflow of intermediate values at extremes"),
"C07": ("related pairs, points of circles of any radius, all patterns on a stride against each axis (landmarks always included); f64 `atan2`, angles compared modulo a turn", "quadrants times signed zeros times extreme ratios"),
"C08": ("all 2^32 patterns; f64 `asin`, `acos`", "end points and values just outside of the domain"),
"C09": ("all 2^32 patterns (neighbours compared for monotonicity), generated pairs; f64", "monotonicity is a statement on every neighbouring pair"),
"C10": ("all 2^32 patterns; f64 reciprocal", "the ends of the exponent range"),
"C11": ("all 2^32 patterns; f64 `exp`, `cosh`", "under- and overflow thresholds are single patterns"),
"C12": ("all 2^32 patterns, generated (x, base); f64 logarithms", "subnormals, bases on either side of one"),
"C13": ("generated pairs, half of them aimed at representable powers; f64 `exp(n ln x)`", "parity of huge exponents, fractional exponents of negative bases, range ends"),
"C14": ("generated pairs, half aimed; f64 power, IEEE rules for zeros and infinities; watchdog for termination", "exponents near i32::MIN, early exits next to the range ends"),
"C15": ("generated pairs; exact remainder (IEEE `%` and one f64 addition), exact quotient in f64", "signs, ties and rounding up to the divisor"),
"C16": ("generated pairs through all operator impls, patterns on a stride; f32's own operators", "each of the mixed and assigning impls, NaN ordering"),
"C17": ("sequences up to 600, all 2^32 patterns and all 16-bit integers through conversions, triples; f32's own results, one or two roundings allowed for `mul_add`", "order of folding shows only in rounding"),
"C18": ("values x 180 format specifications, damaged number texts, radix texts; f32's own text and parser", "flag combinations"),
"C19": ("patterns on a stride (landmarks always) and tuples through both faces; bit equality", "each method forwards to the one of the same name, for every value"),
"C20": ("stateful: programs of up to 40 public operations feeding on each other's results, run twice, one in four in another order; the same call between look-alike calls, and in four threads at once; single calls on anything; oracle: no panic but the documented ones, equal bits", "values no test writes down arise from histories"),
"C21": ("2^24 NaNs, NaN tuples, domain sweeps; NaN exactly where stated", "all positions and payloads"),
"C22": ("16 vector types, generated components, lengths, indices, and iterator histories (next, nth, by_ref, clone, fold, size_hint); a plain list as model", "type x index x history"),
"C23": ("16 types, operands near overflow, sequences to 40 vectors; the component type's own operations", "an axis mixed up shows only on unequal axes"),
"C24": ("half-width and mixed-width integers, floats; i128 and f64 sums of products", "intermediate overflow at representable results"),
"C25": ("generated pairs, near-equal ones included; f64 lengths of f32 differences", "wrap-around of unsigned differences, cancellation"),
"C26": ("every 16-bit pattern on each axis in each type; equality in f64", "sign extension, axis mix-ups"),
"C27": ("integers, structured floats, conjugate pairs; Hamilton's table in f64", "sign of one term out of sixteen"),
"C28": ("generated quaternions of all norms; f64; panics compared with the computed norm", "norm range, exact powers of two"),
"C29": ("unit and other quaternions, 6 vector types, axes, angles; q v conj(q) in f64", "quaternions that are not of unit length, narrow component types"),
"C30": ("pairs at any angle to 1e-9 of parallel and opposite, narrow integer types; the rotated vector and the angle in f64", "the opposite branch and its neighbourhood"),
"C31": ("unit quaternions, one in five at gimbal lock; f64 formulas", "gimbal lock neighbourhood"),
"C32": ("samples of all shapes to 20,000, iterators to 2^32 + 54,321 items, false size hints; two-pass f64", "counter widths, iterator kinds, cancellation"),
"C33": ("samples, thresholds aimed at elements' own distances, exact-boundary samples, consumption histories; f64 filter with a rounding margin and an exact one where no rounding occurs", "boundary, resumption after the end"),
"C34": ("differential: the digest program built in 32 feature sets and 4 profiles, the same generated operands; equal hashes per block of operations; `bare/` for no_std", "one cfg on one operation in one feature set"),
"C35": ("generated values logged through a capturing global logger; a decoder of the frames", "byte order, component order, format string"),
"C36": ("a harness-defined vector with 1 to 40 axes stored in reverse, and virtual ones to 100,000; the same references as C22 and C25", "code that quietly assumes two or three axes"),
"C37": ("integers modulo 2^61-1 without an order, saturating fixed-point samples; the ring's formulas, or the converted f32", "code that quietly assumes a primitive"),
"C38": ("pairs equal, different in one component, rotated; numbers in the Debug text read back", "NaN and signed zeros per component"),
"C39": ("infinite, huge, tiny operands; the limit", "corners of two-operand functions"),
"C41": ("patterns on a stride, each with its neighbour, one of 64 above and one of 2^27 above, for 15 functions; points around circles; no oracle but order and slope", "pairs, not single results; pieces of an approximation that do not meet"),
"C40": ("NaNs or infinities in random components; NaN exactly where stated", "comparisons that silently drop NaNs"),
}
HEAD = open(f"{here}/tools/design_head.md").read()
out = [HEAD.rstrip() + "\n"]
out.append(f"\n## Per property\n\nAll {len(props)} properties are decided by generated-input search; none is listed as not applicable. "
  "\"Cases\" and \"time\" are those of one quick run (seed 1, 8 cores, without the build, which costs 20 to 26 s from cold); \"error/bound\" is the largest observed error as a fraction of the stated bound. "
  "The thorough tier runs the same generators with 12 times the cases and all strides 1. Planted bugs are those in `seeded/` for the property; each is reported by the property's own check unless the list below says otherwise.\n\n")
for p in props:
    i = p["id"]; what, why = D[i]; m = meas.get(i, {})
    out.append(f"**{i} {p['title']}.** Generated and compared with: {what}. Beyond tests: {why}.")
    if m:
        r = f", error/bound {m['ratio']:.2f}" if m.get("ratio") else ""
        w = f", {m['wall']:.0f} s" if m.get("wall") else ""
        out.append(f" {m['cases']:,} cases ({m['distinct']:,} distinct non-trivial){w}{r}.")
    if i in bugs: out.append(" Planted: " + ", ".join(bugs[i]) + ".")
    out.append("\n\n")
open(f"{here}/DESIGN.md", "w").write("".join(out).rstrip() + "\n")
