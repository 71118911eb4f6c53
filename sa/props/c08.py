"""C08: integer quantities are computed exactly, at every size."""
from .rows import *
from .c05 import arr

TITLE = "Integer results are exact at every size"
RULE = ("Exactness analysis: a float obtained from exact integers by a logarithm ratio (or two-argument log), or from an arbitrary-size integer "
        "(polynomial bit pattern, integer read from bits) by /, sqrt, log2 or float arithmetic, must not be turned back into an integer by floor, "
        "ceil, int(), an integer store or integer cast; an arbitrary-size integer must not be stored in, or combined in the arithmetic of, "
        "fixed-width array elements.  On concrete wide arguments (100-bit words) "
        "no array operation in fixed width may attain a value beyond 2**63.")
ASSUME = ENGINE_ASSUMPTIONS + ["sizes (lengths, orders, degrees) stay below 2**53, where division, sqrt and log2 of integers round correctly"]
MIN = {"entry points": 400}

# concrete wide arguments: results that do not fit 64 bits are part of the contract
WIDE = []


def wide(target, doc, *overs, member=None, ctor=None, idx=0):
    for o in overs:
        WIDE.append(Row(target, o, "accept", doc, member=member, ctor=ctor, idx=idx))


wide("bits_to_int", "bits_to_int is exact for words of more than 64 bits",
     {"input": A((100,)), "bit_order": S("LSB-first")}, {"input": A((3, 100)), "bit_order": S("LSB-first")}, {"input": A((100,)), "bit_order": S("MSB-first")})
wide("int_to_bits", "int_to_bits is exact for widths of more than 64 bits",
     {"input": BIG(0), "width": CONST(100), "bit_order": S("LSB-first")}, {"input": BIG(0), "width": CONST(100), "bit_order": S("MSB-first")}, idx=1)
wide("BinaryPolynomial", "from_coefficients is exact for more than 64 coefficients", {"coefficients": A((100,))}, member="from_coefficients")
wide("BinaryPolynomial", "from_exponents is exact for exponents beyond 64", {"exponents": A((5,), 70, 200, dt="i64")}, {"exponents": L(I(70, 200))}, member="from_exponents")
wide("BinaryPolynomial", "coefficients is exact for more than 64 coefficients", {"width": CONST(100)}, member="coefficients")


def jobs(prog, tier):
    return sweep_jobs(prog, tier) + [("wide", i, 0) for i in range(len(WIDE))]


def bad(events, entry):
    return [from_event(ev, "inexact-integer", f"{ev.detail}: the integer is derived through an inexact float" if ev.kind == "round-inexact" else ev.detail, entry)
            for ev in events if ev.kind in ("round-inexact", "big-fixed")]


def job(prog, j):
    if j[0] == "wide":
        r = WIDE[j[1]]
        oc, _, _, I, _ = run_row(prog, r, r.over)
        out = [from_event(ev, "inexact-integer", f"{r.doc}: {ev.detail}", r.label) for ev in I.events if ev.kind in ("fixed-overflow", "big-fixed", "round-inexact")]
        return {"findings": out, "counts": {"wide rows": 1, **({"wide rows not analysed": 1} if oc in ("crash", "budget", "nounit", "nomember") else {})},
                "funcs": {shortfunc(q) for q in I.analysed}, "notes": []}
    return sweep_job(prog, j, lambda e, counts: bad(e.events, e.name), lambda u: bad(u.ctor_events, u.name))
