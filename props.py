"""Registry: property -> symbolic harness entries that decide it (harness/<harness>.cc, function <entry>)."""
import os
HERE = os.path.dirname(os.path.abspath(__file__))
ALL = ["up", "conv", "dbg"]
def J(harness, entry, configs=("up",), **kw): return dict(harness=harness, entry=entry, configs=list(configs), **kw)
def K3(h, es, heavy=()):
    """entries x element kinds x build configurations; (entry, kind, config) triples in heavy run in the thorough tier only"""
    out = []
    for e in es:
        for k in ("SA8", "FX16", "FX168"):
            cs = {"SA8": ALL, "FX16": ["up", "conv"], "FX168": ["up"]}[k]; q = [c for c in cs if (e, k, c) not in heavy]
            if q: out.append(J(h, e, q, defs=["KIND=" + k]))
            if q != cs: out.append(J(h, e, [c for c in cs if c not in q], defs=["KIND=" + k], thorough_only=True))
    return out
COMMON_ASSUMPTIONS = []
PROPS = {
    "C01": {"jobs": [J("math", e, ["up", "conv"]) for e in ("m_shift8", "m_shift16", "m_shift32", "m_shift64", "m_arith", "m_norm", "m_cast", "m_cast_nosh", "m_cast_acc40", "m_normcast", "m_mul")]},
    "C02": {"jobs": K3("conv", ["conv_gen", "conv_k1", "conv_k3", "conv_k5", "conv_relu"])},
    "C03": {"jobs": K3("conv", ["dw_gen", "dw_k3", "dw_k5", "dw_relu", "grp_gen", "grp_k3", "grp_k5", "grp_relu"], [("grp_gen", "SA8", "conv"), ("grp_gen", "FX16", "conv"), ("dw_gen", "SA8", "conv")])},
    "C04": {"jobs": K3("conv", ["tr_gen", "tr_k2", "tr_k4", "tr_relu"], [("tr_gen", "SA8", "conv"), ("tr_gen", "FX16", "conv")])},
    "C05": {"jobs": [J("fc", e, {"SA8": ALL, "SA8X": ["up"], "FX16": ["up", "conv"], "FX168": ["up"], "FX8": ["dbg"]}[k], defs=["KIND=" + k]) for e in ("fc_gen", "fc_relu", "fc_bias") for k in ("SA8", "SA8X", "FX16", "FX168", "FX8") if e != "fc_bias" or k != "SA8X"]},
    "C06": {"jobs": [J("pool", e, {"SA8": ALL if e in ("avg_gen", "avg_k3") else ["up"], "FX16": ["conv" if e != "avg_gen" else "up"], "FX8": ["dbg"]}[k], defs=["KIND=" + k]) for e in ("avg_gen", "avg_k2", "avg_k3", "avg_big", "max_gen", "max_k2", "max_k3") for k in ("SA8", "FX16", "FX8")]},
    "C07": {"jobs": [J("eltw", e, {"SA8": ALL, "FX16": ["up", "conv"], "FX8": ["dbg"]}[k], defs=["KIND=" + k]) for e in ("e_add", "e_sub", "e_mul", "e_min", "e_max") for k in ("SA8", "FX16", "FX8")]},
    "C08": {"jobs": [J("act", e, {"SA8": ALL if e == "a_relu" else ["up", "conv"], "FX16": ["up", "conv"], "FX8": ["dbg", "conv"]}[k], defs=["KIND=" + k]) for e in ("a_relu", "a_leaky", "a_prelu", "a_slope") for k in ("SA8", "FX16", "FX8")]},
    "C09": {"jobs": [J("lut", e, {"SA8": ALL, "FX16": ["up", "conv"], "FX8": ["up"]}[k], defs=["KIND=" + k]) for e in ("l_tanh", "l_sigm", "l_table") for k in ("SA8", "FX16", "FX8")]
            + [J("lut", e, ["up"], defs=["KIND=FX16"]) for e in ("l_acc_tanh", "l_acc_sigm")]
            + [J("lut", "l_softmax", ["up"], defs=["KIND=FX16"]), J("lut", "l_l2", ["up"], defs=["KIND=FX16"])]
            + [J("lut", e, ["up"], defs=["KIND=SA8"]) for e in ("l_softmax", "l_l2")]
            + [J("lut", e, ["conv", "dbg"] if k == "SA8" else ["conv"], defs=["KIND=" + k], thorough_only=True) for e in ("l_softmax", "l_l2") for k in ("SA8", "FX16")]},
    "C10": {"jobs": [J("rnn", "r_dense", {"SA8": ALL, "FX16": ["up", "conv"], "FX168": ["up"]}[k], defs=["KIND=" + k]) for k in ("SA8", "FX16", "FX168")]
            + [J("rnn", e, ["up"], defs=["KIND=" + k]) for e in ("r_lstm", "r_gru") for k in ("SA8", "FX16", "FX168")]
            + [J("rnn", e, ["conv", "dbg"], defs=["KIND=" + k], thorough_only=True) for e in ("r_lstm", "r_gru") for k in ("SA8", "FX16", "FX168")]},
    "C12": {"jobs": [J("hlp", "h_info", ["up", "ret"]), J("hlp", "h_param", ["up", "dbg"]), J("hlp", "h_sub", ["up"]), J("hlp", "h_point", ["up"])]},
    "C13": {"jobs": [J("chk", e, ["ret"]) for e in ("k_tensor", "k_tensor_small", "k_quant", "k_overlap", "k_sub", "k_cvt")]
            + [J("chk", e, ["ret"], defs=["KIND=%d" % k]) for e in ("k_conv", "k_dw", "k_grp", "k_tr", "k_pool", "k_fc", "k_act", "k_elt", "k_perm", "k_argmax") for k in (0, 1, 2) if (e, k) != ("k_argmax", 1)]},
    "C14": {"jobs": [J("iter", e, ["up"]) for e in ("it_plain", "it_window", "it_follow", "it_elem", "it_drop", "it_views", "it_size")]},
    "C16": {"jobs": [J("hlp", "h_conv", ALL), J("hlp", "h_conv32", ALL)]},
    "C11": {"jobs": [J("move", e, ["up", "dbg"]) for e in ("mv_all", "mv_axis", "mv_cfg", "mv_pool", "mv_async", "mv_permute")]},
}
def known(pid):
    out = []
    try:
        for l in open(HERE + "/known-findings.txt"):
            if l.startswith("finding: property=%s " % pid): out.append(l.split(" ", 2)[2].strip())
    except OSError: pass
    return out
