#!/usr/bin/env python3
"""Texts of the properties.  `python3 catalog.py` writes properties.jsonl and MANIFEST.json (both committed)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
L = "lib/src/"
def P(title, statement, over, quant, why, files, mech, note, observe=None):
    return dict(title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, note=note, observe=observe)
GEOM = "the unit tests run a few dozen recorded vectors with fixed data, one build configuration and few shapes per kernel; arithmetic corner values (saturation, rounding ties, extreme offsets) and padded/strided/gapped geometries meet only by accident"
CAT = {
"C01": P("Fixed-point primitives compute saturated, correctly rounded results",
  "Every fixed-point primitive (saturating add, subtract, shift left, rounding shift right, normalisation, multiply, type conversion with shift) returns, for every operand value and every shift amount a kernel may pass, the mathematically exact result rounded in the configured rounding mode and saturated to the result type. No operand makes a primitive wrap around silently.",
  ["inputs", "configurations"], "all operand values of each width, all shift amounts -W..2W, both rounding modes", "tests sample operands; the primitives are only exercised through kernels",
  [L + "pal/ref/mli_math.h"], [("saturating and rounding helpers", L + "pal/ref/mli_math.h")],
  "all operand values; shifts enumerated one path each"),
"C02": P("General 2-D convolution equals its fixed-point definition",
  "For every input, weight, bias, zero point and activation limit, each output element of the general 2-D convolution is the accumulated sum over the kernel window of input minus zero point times weight, plus bias, rescaled, rounded, saturated and clamped by the selected activation. Padding never contributes, the variants specialised for a kernel size agree with the general one, and nothing but the elements of the output tensor is written.",
  ["inputs", "configurations"], "all data values and zero points; strides, dilations, paddings, memory strides, per-tensor/per-axis scales, element types and build configurations of the stated grid", GEOM,
  [L + "kernels/convolution"], [("convolution loops, padding split", L + "kernels/convolution/impl/mli_krn_convolution_ref.h"), ("quantised accumulation and rescale", L + "bricks/impl/mli_prv_quant_ref.h")],
  "all data values within small shapes"),
"C03": P("Depthwise and group convolution equal their fixed-point definition",
  "For every input, weight, bias and zero point, each output channel of a depthwise or group convolution depends exactly on the input channels of its own group and equals the accumulated, rescaled, rounded, saturated and clamped window sum. Every specialised variant agrees with the general one and writes only its output elements.",
  ["inputs", "configurations"], "as for the general convolution; one and two groups", GEOM,
  [L + "kernels/convolution"], [("depthwise loops", L + "kernels/convolution/impl/mli_krn_convolution_ref.h"), ("group loop", L + "kernels/convolution/impl/mli_krn_group_conv2d_ref.h")],
  "all data values within small shapes"),
"C04": P("Transposed convolution equals its fixed-point definition",
  "For every input, weight, bias and zero point, each output element of the transposed convolution collects exactly the input elements whose stride-spread, padded window covers it and equals their accumulated, rescaled, rounded, saturated and clamped sum. Every specialised variant agrees with the general one and writes only its output elements.",
  ["inputs", "configurations"], "all data values; kernels 1..4, strides 1..3, paddings, memory strides, element types, build configurations", GEOM,
  [L + "kernels/convolution"], [("stride-dependent weight sub-selection", L + "kernels/convolution/impl/mli_krn_transpose_conv_ref.h")],
  "all data values within small shapes"),
"C06": P("Average and max pooling equal their definition over the valid window",
  "For every input and quantisation offset, max pooling returns the largest valid element of each window and keeps the quantisation parameters, and average pooling returns the sum of the valid elements scaled by the reciprocal of their number, requantised, rounded and saturated. Padding cells never take part and nothing but the output elements is written.",
  ["inputs", "configurations"], "all data values and zero points; kernels, strides, paddings, window areas up to 34 (quick) or 260 (thorough), element types, build configurations", GEOM,
  [L + "kernels/pooling"], [("pooling loops", L + "kernels/pooling/impl/mli_krn_avepool_hwc_ref.h"), ("window reduction", L + "bricks/impl/mli_krn_reduce_sum2d_ref.h")],
  "all data values within small shapes"),
}
exec(open(HERE + "/catalog_more.py").read()) if os.path.exists(HERE + "/catalog_more.py") else None
NA = []
NOTE = "Bounded: solver verdicts (z3, with exact normal-form rewriting before it) over all values of the symbolic inputs within the enumerated shapes; the LLVM bitcode of the current sources is executed symbolically on every run. Trusted: clang's front end, the executor, z3, the harness specification; sampled paths are re-run natively and compared. "
if __name__ == "__main__":
    import props
    with open(HERE + "/properties.jsonl", "w") as f:
        for k, p in sorted(CAT.items()):
            an = {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"] or ["public API calls and the memory they write"], "hook_needed": None}
            f.write(json.dumps({"id": k, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"], "anchors": an}) + "\n")
            assert len(p["title"]) <= 80, k
    m = {"version": 1, "setup_cmd": "make -j8 -C engine", "checks": [
        {"property": k, "quick_cmd": "python3 check.py %s" % k, "thorough_cmd": "python3 check.py %s --tier thorough" % k, "evidence_file": "evidence/%s.json" % k,
         "technique": "symbolic execution of the compiled library with an SMT solver", "level": "model_checking", "level_note": NOTE + CAT[k]["note"]} for k in sorted(CAT) if k in props.PROPS],
        "not_applicable": NA}
    assert set(props.PROPS) <= set(CAT) and all(k in props.PROPS or any(n["property"] == k for n in NA) for k in CAT)
    json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
