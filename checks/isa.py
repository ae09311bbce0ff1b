"""C05-C08, C25: words, instruction encodings and the opcode map.

The oracle for encodings is the table of command-code layouts of the
Programmers' Reference Manual, transcribed below (bits 1..12, left to right;
letters are the fields the programmer supplies, x is don't-care = 0).
"""
import itertools

from mc.core import (expect, fail, ok, rejects, import_repo, outcome,
                     explore, freeze, REPO)

VE = (ValueError,)

# mnemonic: (class name, layout of bits 1-12 unmasked, masked layout or None)
U = "s%sabc0%s"
M = "smmmmm1%s"


def _maskable(op):
    return ("s10abc0" + op, "smmmmm1" + op)


TABLE = {
    "BA": ("BinaryAdd",) + _maskable("01001"),
    "DA": ("DecimalAdd",) + _maskable("00001"),
    "WA": ("WordAdd",) + _maskable("01101"),
    "BS": ("BinarySubtract",) + _maskable("11001"),
    "DS": ("DecimalSubtract",) + _maskable("10001"),
    "WD": ("WordDifference",) + _maskable("11101"),
    "NA": ("NotEqualAlphabetic",) + _maskable("01100"),
    "NN": ("NotEqualNumeric",) + _maskable("01000"),
    "LA": ("LessThanOrEqualAlphabetic",) + _maskable("11100"),
    "LN": ("LessThanOrEqualNumeric",) + _maskable("11000"),
    "TX": ("Transfer",) + _maskable("10000"),
    "TS": ("TransferChangeSequence",) + _maskable("00100"),
    "HA": ("HalfAdd",) + _maskable("10101"),
    "SM": ("Superimpose",) + _maskable("00101"),
    "CP": ("CheckParity",) + _maskable("10100"),
    "BM": ("BinaryMultiply", "s00abc001011", None),
    "DM": ("DecimalMultiply", "s00abc000011", None),
    "BT": ("BinaryAccumulate", "s10abc001011", None),
    "DT": ("DecimalAccumulate", "s10abc000011", None),
    "MT": ("MultipleTransfer", "s00abc010000", None),
    "TN": ("TransferNWords", "s01abc010000", None),
    "CC": ("ComputeOrthocount", "s01abc001000", None),
    "IT": ("ItemTransfer", "s01abc011000", None),
    "EBA": ("ExtendedBinaryAdd", "s11abc001011", None),
    "EBS": ("ExtendedBinarySubtract", "s11abc011011", None),
    "RT": ("RecordTransfer", "s11abc011000", None),
    "MPC": ("ControlProgram", "s10abc000000", None),
    "PR": ("Proceed", "x000xx000000", None),
    "SWS": ("ShiftWordAndSubstitute", "s10abc000110", None),
    "SPS": ("ShiftPreservingSignAndSubstitute", "s10abc000010", None),
    "SWE": ("ShiftWordAndExtract", "s10abc001110", None),
    "SPE": ("ShiftPreservingSignAndExtract", "s10abc001010", None),
    "SSL": ("ShiftAndSelect", "s10abc010110", None),
    "SS": ("Substitute", "s00abc000110", None),
    "EX": ("Extract", "s00abc001110", None),
    "RF": ("ReadForward", "pppppp111010", None),
    "RB": ("ReadBackward", "pppppp101010", None),
    "WF": ("WriteForward", "pppppp101110", None),
    "RW": ("Rewind", "pppppp100010", None),
    "PRA": ("PrintAlphabetic", "sxxabc100110", None),
    "PRD": ("PrintDecimal", "sxxabc100110", None),
    "PRO": ("PrintOctal", "sxxabc100110", None),
    "S": ("Simulator", "sxxxxxx00111", None),
    "FBA": ("FloatingBinaryAdd", "s01abc000001", None),
    "FDA": ("FloatingDecimalAdd", "s01abc010001", None),
    "FBS": ("FloatingBinarySubtract", "s01abc001001", None),
    "FDS": ("FloatingDecimalSubtract", "s01abc011001", None),
    "FBD": ("FloatingBinaryDivide", "s01abc000101", None),
    "FDD": ("FloatingDecimalDivide", "s01abc010101", None),
    "FBAU": ("FloatingBinaryAddUnnormalized", "s11abc000001", None),
    "FDAU": ("FloatingDecimalAddUnnormalized", "s11abc010001", None),
    "FBSU": ("FloatingBinarySubtractUnnormalized", "s11abc001001", None),
    "FDSU": ("FloatingDecimalSubtractUnnormalized", "s11abc011001", None),
    "FBM": ("FloatingBinaryMultiply", "s11abc000101", None),
    "FDM": ("FloatingDecimalMultiply", "s11abc010101", None),
    "ULD": ("MultipleUnload", "s11abc001101", None),
    "FBAE": ("FloatingBinaryAddExtendedPrecision", "s00abc000001", None),
    "FBSE": ("FloatingBinarySubtractExtendedPrecision", "s00abc001001", None),
    "BD": ("FixedBinaryDivide", "s00abc000101", None),
    "DD": ("FixedDecimalDivide", "s00abc010101", None),
    "FFN": ("FixedToFloatingNormalize", "s00abc001101", None),
    "FCON": ("Conversion", "s00abc011101", None),
    "FLN": ("FloatingLessThanNormalized", "s00abc011000", None),
    "FNN": ("FloatingNotEqualNormalized", "s10abc001100", None),
}

PSEUDO = """ASSIGN END EQUALS EVEN MASKGRP MODLOC RESERVE SETLOC SIMULATE TAS
ALF DEC EBC FLBIN FLDEC FXBIN OCT
SPEC CAC MASKBASE CONTROL M TAC LINK SEGNAME SUBCALL
CSCON DOFF DON SCON SPCR STOP COREDUMP DUMP
ARGUS U MACRODEF FINIS ELIMSEG SEGMENT PROGRAM TESTDATA ELIMDATA ELIMDERL
DELETE ENDARGUS""".split()

CONSTANTS = """AlphanumericConstant DecimalConstant ExtendedBinaryConstant
FloatingBinaryConstant FloatingDecimalConstant FixedBinaryConstant
OctalConstant SpecialAddressConstant CompleteAddressConstant
MaskBaseAddressConstant ProgramControlConstant MixedConstant
TapeAddressConstant LinkageConstant SegmentNameConstant
SubroutineCallConstant""".split()

# Different mnemonics the manual gives the same code: FNN is the unmasked NA,
# and the three print instructions differ only in their address groups.
SYNONYMS = [{"NA", "FNN"}, {"PRA", "PRD", "PRO"}]


def encode(layout, **f):
    """Numeric command code of a layout with the fields filled in."""
    widths = {k: layout.count(k) for k in "smabcp"}
    seen = dict.fromkeys(widths, 0)
    v = 0
    for ch in layout:
        if ch in "01":
            bit = int(ch)
        elif ch == "x":
            bit = 0
        else:
            seen[ch] += 1
            bit = int(f[ch]) >> (widths[ch] - seen[ch]) & 1
        v = v << 1 | bit
    return v


def argspace(mnemonic):
    """Complete list of (kwargs, code) a programmer can write."""
    cls, unm, msk = TABLE[mnemonic]
    out = []
    if "p" in unm:
        return [({"paddr": p}, encode(unm, p=p)) for p in range(64)]
    if "s" not in unm:
        return [({}, encode(unm))]
    if "a" not in unm:
        return [({"sequence": s}, encode(unm, s=s)) for s in (0, 1)]
    for s, a, b, c in itertools.product((0, 1), repeat=4):
        out.append(({"sequence": s, "a": a, "b": b, "c": c},
                    encode(unm, s=s, a=a, b=b, c=c)))
    if msk:
        for s in (0, 1):
            for m in range(32):
                out.append(({"sequence": s, "mask": m},
                            encode(msk, s=s, m=m)))
    return out


class Impl:
    def __init__(self):
        self.ins = import_repo("h800.instructions")
        self.base = import_repo("h800.instruction")
        self.word = import_repo("h800.word")

    def cls(self, mnemonic):
        return getattr(self.ins, TABLE[mnemonic][0])


def mixed_bool(kw):
    """Every way of giving some of the flags as truth values, others as
    numbers."""
    flags = [k for k in ("sequence", "a", "b", "c") if k in kw]
    for bits in range(1, (1 << len(flags)) - 1):
        yield {k: bool(v) if k in flags and bits >> flags.index(k) & 1 else v
               for k, v in kw.items()}


def as_bool(kw):
    """The same operands, truth values instead of every 0 and 1."""
    return {k: bool(v) if v in (0, 1) else v for k, v in kw.items()}


# ---- C06 ------------------------------------------------------------------

def encoding(ctx):
    impl = Impl()

    def code(label, obj, want):
        expect(label + " code", obj.value, want)
        expect(label + " data", int(obj.data), want)
        for i in range(1, 13):
            expect("%s bit %d" % (label, i), obj.data[i],
                   want >> (12 - i) & 1)
        expect(label + " code after reads", obj.value, want)

    def one(arg):
        m, kw, want = arg
        C = impl.cls(m)
        o1 = ok("%s%r" % (m, kw), C, **kw)
        code("%s%r" % (m, kw), o1, want)
        code("%s%r" % (m, as_bool(kw)), ok("%s bool" % m, C, **as_bool(kw)),
             want)
        order = [k for k in ("sequence", "mask", "a", "b", "c", "paddr")
                 if k in kw]
        if TABLE[m][2] is None:
            code("%s positional" % m, ok("%s positional" % m, C,
                                         *[kw[k] for k in order]), want)
        elif "mask" in kw:
            code("%s positional" % m,
                 ok("%s positional" % m, C, kw["sequence"], kw["mask"]), want)
        else:
            code("%s positional" % m,
                 ok("%s positional" % m, C, kw["sequence"], None, kw["a"],
                    kw["b"], kw["c"]), want)
        for mk in mixed_bool(kw):
            expect("%s%r" % (m, mk), ok("%s%r" % (m, mk), C, **mk).value,
                   want)
        code("%s%r first instance" % (m, kw), o1, want)

    def generic(arg):
        """The same instruction through the generic instruction classes."""
        m, kw, want = arg
        B, op = impl.base, impl.ins.OPCODES[m]
        code("Instruction(%s,%r)" % (m, kw),
             ok("Instruction(%s)" % m, B.Instruction, op, **kw), want)
        for C in ((B.Peripheral,) if "paddr" in kw else
                  (B.GeneralMasked,) if "mask" in kw else
                  (B.GeneralUnmasked, B.Scientific) if "a" in kw else
                  (B.Simulator,) if "sequence" in kw else ()):
            vals = [kw[k] for k in ("sequence", "mask", "a", "b", "c",
                                    "paddr") if k in kw]
            expect("%s(%s,%r)" % (C.__name__, m, vals),
                   ok("%s positional" % m, C, op, *vals).value, want)
            expect("%s(%s,%r) bool" % (C.__name__, m, kw),
                   ok("%s bool" % m, C, op, **as_bool(kw)).value, want)
        if "paddr" in kw:
            code("Peripheral(%s)" % m,
                 ok("Peripheral(%s)" % m, B.Peripheral, op, **kw), want)
        elif "mask" in kw:
            code("GeneralMasked(%s)" % m,
                 ok("GeneralMasked(%s)" % m, B.GeneralMasked, op, **kw), want)
        elif "a" in kw:
            for C in (B.GeneralUnmasked, B.Scientific):
                code("%s(%s)" % (C.__name__, m),
                     ok("%s(%s)" % (C.__name__, m), C, op, **kw), want)
        elif "sequence" in kw:
            code("Simulator(%s)" % m,
                 ok("Simulator(%s)" % m, B.Simulator, op, **kw), want)

    def helper(arg):
        m, kw, want = arg
        I = impl.ins
        if "paddr" in kw:
            f = I.make_peripheral_opcode
        elif "mask" in kw:
            f = I.make_masked_opcode
        elif m in ("PRA", "PRD", "PRO"):
            f = I.make_print_opcode
        elif "a" in kw:
            f = I.make_unmasked_opcode
        elif m == "PR":
            f, kw = I.make_unmasked_opcode, dict(sequence=0, a=0, b=0, c=0)
        else:
            return
        expect("%s%r helper" % (m, kw), ok("helper", f, m, **kw), want)
        for mk in [as_bool(kw)] + list(mixed_bool(kw)):
            expect("%s%r helper" % (m, mk), ok("helper", f, m, **mk), want)
        vals = [kw[k] for k in ("sequence", "mask", "a", "b", "c", "paddr")
                if k in kw]
        expect("%s%r helper" % (m, vals), ok("helper", f, m, *vals), want)

    def pairs(arg):
        """Two instructions alive at once keep their own codes."""
        made = []
        for m, kw, want in arg:
            made.append((m, impl.cls(m)(**kw), want))
            for mm, o, w in made:
                expect("%s of %r" % (mm, arg), o.value, w)
        for mm, o, w in made:
            for i in range(1, 13):
                expect("bit %d of %s in %r" % (i, mm, arg), o.data[i],
                       w >> (12 - i) & 1)

    def crowd(how):
        """Every instruction there is, alive at once: each keeps its code."""
        seq = [[m, *x] for m in TABLE for x in argspace(m)]
        seq = seq * 2 if how == "twice" else seq[::-1] + seq[::3]
        made = [(m, kw, impl.cls(m)(**kw), want) for m, kw, want in seq]
        for m, kw, o, want in made:
            code("%s%r of %d" % (m, kw, len(made)), o, want)
        for m, kw, o, want in made[::-1]:
            expect("%s%r again" % (m, kw), o.value, want)

    for k, f in (("one", one), ("generic", generic), ("helper", helper),
                 ("pairs", pairs), ("crowd", crowd)):
        ctx.kind(k, f)

    def run():
        total = 0
        for m in TABLE:
            for kw, want in argspace(m):
                ctx.case("one", [m, kw, want])
                if kw:
                    ctx.case("generic", [m, kw, want])
                ctx.case("helper", [m, kw, want])
                ctx.count(states=1, transitions=6, traces=1)
                total += 1
        for m in list(TABLE)[::9]:
            ctx.sample([m, argspace(m)[-1]])
        ms = list(TABLE)
        for m1 in ms:
            for m2 in ms:
                xs, ys = argspace(m1), argspace(m2)
                if ctx.deep:
                    xs, ys = xs[::2], ys[::2]
                else:
                    xs, ys = xs[::5], ys[::3]
                for x in xs:
                    for y in ys:
                        ctx.case("pairs", [[m1, x[0], x[1]],
                                           [m2, y[0], y[1]]])
                        ctx.count(transitions=2)
            # all the forms of one instruction, alive together, and between
            # the same forms of another
            sp = argspace(m1)
            for seq in (sp, sp[::-1], sp[::7] + sp):
                ctx.case("pairs", [[m1, k, w] for k, w in seq])
                ctx.count(transitions=len(seq))
            for m2 in ms[::4]:
                sq = argspace(m2)
                seq = [x for i in range(20) for x in
                       ([m1, *sp[i % len(sp)]], [m2, *sq[i % len(sq)]])]
                ctx.case("pairs", seq)
                ctx.count(transitions=len(seq))
        # every instruction there is, alive together
        for how in ("twice", "backwards"):
            ctx.case("crowd", how)
            ctx.count(transitions=2 * total)
        ctx.bounds = {"mnemonics": len(TABLE), "encodings": total,
                      "complete": "every argument combination of every "
                      "machine instruction"}
    return run


# ---- C07 ------------------------------------------------------------------

FLAG = (None, 0, 1, 2, -1)
MASKS = (None, -1, 0, 1, 30, 31, 32, 63, 64)
PADDRS = (-64, -1, 0, 1, 62, 63, 64, 65, 127, 128, 4096)
ODD = ("", "0", "1", "A", 0.5, 1.5, -0.5, 1 << 64)


def validation(ctx):
    impl = Impl()

    def verdict(m, kw):
        """'ok', 'bad' or None (not claimed)."""
        msk = TABLE[m][2] is not None
        per = "p" in TABLE[m][1]
        abc = [kw.get(k) for k in "abc"]
        s, mask, p = kw.get("sequence"), kw.get("mask"), kw.get("paddr")
        if any(x not in (None, 0, 1) for x in abc + [s]):
            return "bad"
        if mask is not None and (not msk or not 0 <= mask <= 31 or
                                 any(x is not None for x in abc) or
                                 p is not None):
            return "bad"
        if p is not None and (not 0 <= p <= 63 or s is not None or
                              mask is not None or
                              any(x is not None for x in abc)):
            return "bad"
        if per:
            return "ok" if p is not None else None
        if p is not None:
            return None         # peripheral address on another instruction
        if s is None:
            return None
        if mask is not None or all(x is not None for x in abc):
            return "ok"
        return None

    def want(m, kw):
        cls, unm, msk = TABLE[m]
        if kw.get("mask") is not None:
            return encode(msk, s=kw["sequence"], m=kw["mask"])
        if kw.get("paddr") is not None:
            return encode(unm, p=kw["paddr"])
        return encode(unm, s=kw["sequence"], **{k: kw[k] for k in "abc"}) \
            if "a" in unm else encode(unm, s=kw["sequence"])

    def run_one(label, m, kw, fn):
        v = verdict(m, kw)
        if v == "bad":
            rejects(label, VE, fn)
        elif v == "ok":
            got = ok(label, fn)
            if m not in ("PR", "S") or label.startswith(m):
                expect(label, got.value, want(m, kw))

    def via_class(arg):
        m, kw = arg
        run_one("%s%r" % (m, kw), m, kw, lambda: impl.cls(m)(**kw))

    def via_base(arg):
        m, kw = arg
        op = impl.ins.OPCODES[m]
        run_one("Instruction(%s)%r" % (m, kw), m, kw,
                lambda: impl.base.Instruction(op, **kw))

    def via_generic(arg):
        """The generic class of the instruction's kind."""
        m, name, kw = arg
        op = impl.ins.OPCODES[m]
        run_one("%s(%s)%r" % (name, m, kw), m, kw,
                lambda: getattr(impl.base, name)(op, **kw))

    def raw(arg):
        """Generic instruction with hand-made opcode descriptors."""
        b23, b7, op, bad = arg
        O = impl.ins.Opcode("ZZ", "Z", b23, b7, op, "unmasked")
        f = lambda: impl.base.Instruction(O, sequence=0, a=0, b=0, c=0)
        if bad:
            rejects("opcode %r" % (arg,), VE, f)
        else:
            ok("opcode %r" % (arg,), f)

    for k, f in (("class", via_class), ("base", via_base), ("raw", raw),
                 ("generic", via_generic)):
        ctx.kind(k, f)

    def run():
        for m in TABLE:
            cls, unm, msk = TABLE[m]
            if "p" in unm:
                for p in PADDRS:
                    ctx.case("class", [m, {"paddr": p}])
                    ctx.count(states=1, transitions=1, traces=1)
            elif msk:
                for s in FLAG:
                    for mask in MASKS:
                        for a, b, c in itertools.product(FLAG, repeat=3):
                            kw = {"sequence": s, "mask": mask,
                                  "a": a, "b": b, "c": c}
                            ctx.case("class", [m, kw])
                            ctx.count(states=1, transitions=1, traces=1)
                for s in (0, 1):
                    for mask in (False, True):
                        for k in "abc":
                            for x in (False, True):
                                ctx.case("class", [m, {"sequence": s, "mask":
                                                       mask, k: x}])
                                ctx.count(states=1, transitions=1, traces=1)
                    for mask in range(-3, 40):
                        ctx.case("class", [m, {"sequence": s, "mask": mask}])
                        ctx.count(states=1, transitions=1, traces=1)
            elif "a" in unm:
                for s, a, b, c in itertools.product(FLAG, repeat=4):
                    if None in (s,):
                        continue
                    ctx.case("class", [m, {"sequence": s, "a": a, "b": b,
                                           "c": c}])
                    ctx.count(states=1, transitions=1, traces=1)
            elif "s" in unm:
                for s in (0, 1, 2, -1, 3):
                    ctx.case("class", [m, {"sequence": s}])
                    ctx.count(states=1, transitions=1, traces=1)
            if "p" in unm:
                for p in PADDRS:
                    ctx.case("generic", [m, "Peripheral", {"paddr": p}])
                    ctx.count(states=1, transitions=1, traces=1)
            elif "a" in unm:
                for t in itertools.product(FLAG[1:], repeat=4):
                    kw = dict(zip(("sequence", "a", "b", "c"), t))
                    for name in ("GeneralUnmasked", "Scientific"):
                        ctx.case("generic", [m, name, kw])
                        ctx.count(states=1, transitions=1, traces=1)
            elif "s" in unm:
                for x in FLAG[1:]:
                    ctx.case("generic", [m, "Simulator", {"sequence": x}])
                    ctx.count(states=1, transitions=1, traces=1)
            for x in FLAG[1:]:
                for mask in MASKS[1:]:
                    ctx.case("generic", [m, "GeneralMasked",
                                         {"sequence": x, "mask": mask}])
                    ctx.count(states=1, transitions=1, traces=1)
            # Values that are no truth value at all, one at a time.
            names = ["sequence"] * ("p" not in unm and m != "PR") + \
                ["a", "b", "c"] * ("a" in unm)
            for k in names:
                for x in ODD:
                    for y in (0, 1):
                        kw = dict.fromkeys(names, y)
                        kw[k] = x
                        ctx.case("class", [m, kw])
                        ctx.case("base", [m, kw])
                        if "a" in unm:
                            ctx.case("generic", [m, "GeneralUnmasked", kw])
                            ctx.case("generic", [m, "Scientific", kw])
                        ctx.count(states=1, transitions=4, traces=4)
            if msk:
                for x in ODD:
                    for mask in (0, 5, 31):
                        kw = {"sequence": x, "mask": mask}
                        ctx.case("class", [m, kw])
                        ctx.case("generic", [m, "GeneralMasked", kw])
                        ctx.count(states=1, transitions=2, traces=2)
            # Cross-kind combinations through the generic instruction.
            reps = (None, 0, 1, 2, False, True)
            for s, mask, p in itertools.product(
                    reps, (None, 0, 5, 31, 32, -1), (None, 0, 5, 63, 64, -1)):
                for abc in ((None,) * 3, (0, 0, 0), (1, None, None),
                            (None, 0, None), (None, None, 1), (2, 0, 0),
                            (0, 2, 0), (0, 0, -1), (False, None, None),
                            (None, False, None), (None, None, False),
                            (True, None, None), (None, True, None),
                            (None, None, True), (False,) * 3, (True,) * 3,
                            (False, True, False), (True, 0, False)):
                    kw = dict(sequence=s, mask=mask, paddr=p, a=abc[0],
                              b=abc[1], c=abc[2])
                    ctx.case("base", [m, kw])
                    ctx.count(states=1, transitions=1, traces=1)
        for b23 in (None, -1, 0, 3, 4):
            for b7 in (None, -1, 0, 1, 2):
                for op in (-1, 0, 31, 32):
                    bad = b23 in (-1, 4) or b7 in (-1, 2) or op in (-1, 32)
                    ctx.case("raw", [b23, b7, op, bad])
                    ctx.count(states=1, transitions=1, traces=1)
        ctx.sample(["BA", {"sequence": 0, "mask": 32}])
        ctx.bounds = {"flags": FLAG, "masks": MASKS, "peripheral": PADDRS}
        ctx.assumptions = [
            "Combinations the manual gives no meaning (missing designators, "
            "a peripheral address on a non-peripheral instruction) are not "
            "claimed either way."]
    return run


# ---- C08 ------------------------------------------------------------------

def opmap(ctx):
    impl = Impl()
    import contextlib
    import io
    import os

    def reference():
        ref = {}
        for m in TABLE:
            for kw, code in argspace(m):
                ref.setdefault(code, set()).add(m)
        return ref

    def allowed(ms):
        return any(ms <= s for s in SYNONYMS) or len(ms) == 1

    def unique(arg):
        """Assemble the complete instruction set; group by code."""
        by = {}
        for m in TABLE:
            for kw, want in argspace(m):
                o = ok("%s%r" % (m, kw), impl.cls(m), **kw)
                by.setdefault(o.value, []).append((m, kw))
                ctx._tick += 1
        for codev, who in by.items():
            ms = {m for m, _ in who}
            if not allowed(ms):
                fail("code 0o%04o is shared by %s", codev, sorted(ms))
            for m in ms:
                n = [kw for mm, kw in who if mm == m]
                if len(n) > 1:
                    fail("%s%r and %s%r assemble to the same code 0o%04o",
                         m, n[0], m, n[1], codev)
        if set(by) != set(reference()):
            fail("the assembled codes differ from the documented set at %s",
                 sorted(set(by) ^ set(reference()))[:5])
        return len(by)

    def required():
        """Codes a printed map must list: each instruction in its shortest
        designation - the masked form of the maskable ones."""
        return {code for m in TABLE for kw, code in argspace(m)
                if TABLE[m][2] is None or "mask" in kw}

    # PR ignores its sequence bit and address designators.
    pr_variants = {encode("sxxabc0xxxxx", s=s, a=a, b=b, c=c)
                   for s, a, b, c in itertools.product((0, 1), repeat=4)}

    def listing(text, label):
        ref = reference()
        seen = []
        for line in text.splitlines():
            if not line.strip():
                continue
            parts = line.split()
            if len(parts) != 2:
                fail("%s: malformed line %r", label, line)
            try:
                code = int(parts[0], 8)
            except ValueError:
                fail("%s: malformed code %r", label, line)
            if parts[1] == "PR" and code in pr_variants and code not in ref:
                continue        # don't-care bits of PR
            if code not in ref:
                fail("%s: 0o%04o is not a documented code", label, code)
            if parts[1] not in ref[code]:
                fail("%s: 0o%04o listed as %s, documented as %s", label, code,
                     parts[1], sorted(ref[code]))
            seen.append(code)
        missing = sorted(required() - set(seen))[:5]
        if missing or seen != sorted(set(seen)):
            fail("%s: codes missing %s, repeated or out of order", label,
                 [oct(x) for x in missing])

    def printed(arg):
        for _ in range(2):
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                ok("print_instructions", impl.ins.print_instructions)
            listing(buf.getvalue(), "printed map")

    def shipped(arg):
        path = os.path.join(REPO, "h800", "opcodes.txt")
        if not os.path.exists(path):
            fail("opcode map file missing")
        listing(open(path).read(), "shipped map")

    def known(arg):
        got = list(impl.ins.INSTRUCTIONS)
        want = set(TABLE) | set(PSEUDO)
        if set(got) != want:
            fail("recognised mnemonics differ: %s",
                 sorted(set(got) ^ want)[:6])
        if len(got) != len(set(got)):
            fail("mnemonic recognised twice")

    for k, f in (("unique", unique), ("printed", printed),
                 ("shipped", shipped), ("known", known)):
        ctx.kind(k, f)

    def run():
        n = ctx.case("unique", None)
        ctx.count(states=n, transitions=sum(len(argspace(m)) for m in TABLE),
                  traces=1)
        for k in ("printed", "shipped", "known"):
            ctx.case(k, None)
            ctx.count(transitions=n, traces=1)
        ctx.sample({"codes": n})
        ctx.bounds = {"complete instruction set": True,
                      "distinct codes": n}
    return run


# ---- C05 ------------------------------------------------------------------

GROUPS = ("command", "a", "b", "c")
SHIFT = {"command": 36, "a": 24, "b": 12, "c": 0}
M48 = (1 << 48) - 1


def patch(w, v, op):
    """Change a word holding v through its bit-field; the new value."""
    if op[0] == "range":
        s, e, x = op[1:]
        w.data[s:e] = x
        mk = (1 << (e - s + 1)) - 1
        return v & ~(mk << 48 - e) | x << 48 - e
    if op[0] == "bit":
        w.data[op[1]] = op[2]
        return v & ~(1 << 48 - op[1]) | op[2] << 48 - op[1]
    if op[0] == "dvalue":
        w.data.value = op[1]
        return op[1]
    f = w.data.set if op[0] == "dset" else w.data.clear
    f(*op[1:])
    if len(op) == 1:
        return M48 if op[0] == "dset" else 0
    b = 1 << 48 - op[1]
    return v | b if op[0] == "dset" else v & ~b


def words(ctx):
    impl = Impl()
    W = impl.word
    OWN = {"command": 0o1234, "a": 0o5670, "b": 0o0707, "c": 0o7061}

    def compose(g):
        return sum(g[k] << SHIFT[k] for k in GROUPS)

    def same(w, g, label):
        expect(label + " word", w.value, compose(g))
        for k in GROUPS:
            expect("%s group %s" % (label, k), getattr(w, k), g[k])
        expect(label + " data", int(w.data), compose(g))

    def build(arg):
        name, v, bgname = arg
        bg = {"zero": 0, "ones": 4095, "alt": 0o2525}.get(bgname)
        g = {k: OWN[k] if bg is None else bg for k in GROUPS}
        g[name] = v
        w = ok("construct", W.InstructionWord, **g)
        same(w, g, "constructed")
        w = ok("construct positional", W.InstructionWord,
               *[g[k] for k in GROUPS])
        same(w, g, "constructed positionally")
        # the same contents reached by assignment, from the opposite word
        w = W.InstructionWord(*[4095 ^ g[k] for k in GROUPS])
        cur = {k: 4095 ^ g[k] for k in GROUPS}
        for k in GROUPS:
            setattr(w, k, g[k])
            cur[k] = g[k]
            same(w, cur, "after assigning %s" % k)
        # ... by assigning the whole word
        w = W.InstructionWord()
        same(w, dict.fromkeys(GROUPS, 0), "empty")
        w.value = compose(g)
        same(w, g, "after assigning the word")

    def bits(arg):
        """Bit 1 is the most significant of 48."""
        v = arg
        for mk in (lambda: W.Word(v), lambda: setv(W.Word(), v),
                   lambda: setv(W.InstructionWord(1, 2, 3, 4), v),
                   lambda: setv(W.Word(M48 ^ v), v)):
            w = mk()
            expect("word", w.value, v)
            for i in range(1, 49):
                expect("bit %d" % i, w.data[i], v >> (48 - i) & 1)
            for k, s in (("command", 1), ("a", 13), ("b", 25), ("c", 37)):
                expect("bits %d-%d" % (s, s + 11), w.data[s:s + 11],
                       v >> SHIFT[k] & 4095)

    def setv(w, v):
        w.value = v
        return w

    def reject(arg):
        name, bad, bgv = arg
        g = dict.fromkeys(GROUPS, bgv)
        b = dict(g)
        b[name] = bad
        rejects("construct %r" % b, VE, W.InstructionWord, **b)
        w = W.InstructionWord(**g)
        rejects("%s=%d" % (name, bad), VE, setattr, w, name, bad)
        same(w, g, "after rejection")
        for k in GROUPS:        # still fully usable
            setattr(w, k, 4095 ^ bgv)
            g[k] = 4095 ^ bgv
            same(w, g, "assigned after rejection")

    def rejword(arg):
        bad, v = arg
        rejects("Word(%d)" % bad, VE, W.Word, bad)
        w = W.Word(v)
        rejects("value=%d" % bad, VE, setattr, w, "value", bad)
        expect("word after rejection", w.value, v)
        i = W.InstructionWord(1, 2, 3, 4)
        rejects("value=%d" % bad, VE, setattr, i, "value", bad)
        same(i, {"command": 1, "a": 2, "b": 3, "c": 4}, "after rejection")

    def const(arg):
        name, v = arg
        C = getattr(impl.ins, name)
        if 0 <= v <= M48:
            c = ok("%s(%d)" % (name, v), C, v)
            expect("%s value" % name, c.value, v)
            for i in (1, 12, 13, 24, 25, 36, 37, 48):
                expect("%s bit %d" % (name, i), c.data[i],
                       v >> (48 - i) & 1)
        else:
            rejects("%s(%d)" % (name, v), VE, C, v)

    def alive(arg):
        """Words of two classes alive together, changed in turn."""
        def mk(name, v):
            if name == "InstructionWord":
                return W.InstructionWord(*[v >> SHIFT[k] & 4095
                                           for k in GROUPS])
            return getattr(W if name == "Word" else impl.ins, name)(v)
        pats = (0o1234567012345670, M48, 0, 1, 1 << 47, M48 // 3)
        ws = [[mk(n, p), p] for n, p in zip(arg * 2, pats)]

        def all_same(label):
            for i, (w, v) in enumerate(ws):
                expect("%s: word %d of %r" % (label, i, arg), w.value, v)
                expect("%s: data %d of %r" % (label, i, arg), int(w.data), v)
        all_same("made")
        for r in range(len(pats)):
            for i in range(len(ws)):
                v = pats[(r + i * 2) % len(pats)]
                ws[i][0].value = v
                ws[i][1] = v
                all_same("assigned")
                rejects("%s.value" % arg[i % 2], VE, setattr, ws[i][0],
                        "value", M48 + 1 + r)
                rejects("%s.value" % arg[i % 2], VE, setattr, ws[i][0],
                        "value", -1 - r)
                all_same("after rejection")
                b = 1 + (7 * r + 11 * i) % 48
                x = 1 - (v >> (48 - b) & 1)
                ws[i][0].data[b] = x
                ws[i][1] ^= 1 << (48 - b)
                all_same("bit changed")

    def held(arg):
        """The bits of a word, held while the word is assigned, stay that
        word's bits, and the other way round."""
        name, ops = arg[0], freeze(arg[1])
        w = W.InstructionWord() if name == "InstructionWord" else \
            W.Word() if name == "Word" else getattr(impl.ins, name)(0)
        d, v = w.data, 0
        for op in ops:
            if op[0] == "bad":
                rejects("value %d" % op[1], VE, setattr, w, "value", op[1])
            elif op[0] == "badgroup":
                if not isinstance(w, W.InstructionWord):
                    return
                rejects("%s %d" % op[1:], VE, setattr, w, *op[1:])
            elif op[0] == "badrange":
                rejects("bits %d-%d := %d" % op[1:], VE, d.__setitem__,
                        slice(op[1], op[2]), op[3])
            elif op[0] == "value":
                w.value = v = op[1]
            elif op[0] in GROUPS:
                if not isinstance(w, W.InstructionWord):
                    return
                setattr(w, op[0], op[1])
                v = v & ~(4095 << SHIFT[op[0]]) | op[1] << SHIFT[op[0]]
            elif op[0] == "held":
                d[op[1]:op[2]] = op[3]
                mk = (1 << (op[2] - op[1] + 1)) - 1
                v = v & ~(mk << 48 - op[2]) | op[3] << 48 - op[2]
            else:
                v = patch(w, v, op)
            for label, got in (("word", w.value), ("bits", int(w.data)),
                               ("held bits", int(d)),
                               ("held range", d[1:48])):
                expect("%s after %r" % (label, op), got, v)
            if name == "InstructionWord":
                for k in GROUPS:
                    expect("group %s after %r" % (k, op), getattr(w, k),
                           v >> SHIFT[k] & 4095)

    # operation histories on one instruction word
    VALS = (0, 1, 0o4000, 4095, 0o2525)

    def ops():
        o = [(k, v) for k in GROUPS for v in VALS]
        o += [("word", 0), ("word", M48), ("word", 0o1234567076543210),
              ("bad", "a", 4096), ("bad", "command", -1),
              ("bad", "b", 4096), ("bad", "c", 8191), ("bad", "b", -1),
              ("badword", M48 + 1), ("bit", 1, 1), ("bit", 48, 0),
              ("bit", 13, 1), ("bit", 24, 0), ("bit", 48, 1), ("bit", 36, 1),
              ("range", 37, 48, 0o77), ("range", 1, 12, 0o7007),
              ("range", 10, 28, 0o1234567), ("range", 25, 36, 0),
              ("range", 13, 24, 4095), ("range", 1, 48, 0o17),
              ("dset", 40), ("dclr", 12), ("dset",), ("dclr",),
              ("dvalue", 0o7766554433221100)]
        return o

    def step(w, g, op):
        g = dict(zip(GROUPS, g))
        if op[0] == "word":
            w.value = op[1]
            g = {k: op[1] >> SHIFT[k] & 4095 for k in GROUPS}
        elif op[0] == "bad":
            rejects("%r" % (op,), VE, setattr, w, op[1], op[2])
        elif op[0] == "badword":
            rejects("%r" % (op,), VE, setattr, w, "value", op[1])
        elif op[0] == "bit":
            w.data[op[1]] = op[2]
            v = compose(g) & ~(1 << (48 - op[1])) | op[2] << (48 - op[1])
            g = {k: v >> SHIFT[k] & 4095 for k in GROUPS}
        elif op[0] in ("range", "dset", "dclr", "dvalue"):
            v = patch(w, compose(g), op)
            g = {k: v >> SHIFT[k] & 4095 for k in GROUPS}
        else:
            setattr(w, op[0], op[1])
            g[op[0]] = op[1]
        same(w, g, "after %r" % (op,))
        return tuple(g[k] for k in GROUPS)

    def make(cfg):
        return W.InstructionWord()

    def hist(arg):
        w, g = make(None), (0,) * 4
        for op in arg[1]:
            g = step(w, g, freeze(op))

    def again(arg):
        """An operation, over and over on the same word."""
        what, n = arg[0], arg[1]
        w = W.InstructionWord() if what in GROUPS or what == "mixed" else \
            W.Word() if arg[2] == "Word" else getattr(impl.ins, arg[2])(0)
        v = 0
        for i in range(n):
            x = (i * 0x9E3779B97F4A7C15 ^ i << 30 | 1) & M48
            if what == "value":
                w.value = v = x
            elif what == "refused":
                w.value = v = x
                rejects("value", VE, setattr, w, "value", M48 + 1 + i)
                rejects("value", VE, setattr, w, "value", -1 - i)
            elif what == "bits":
                b, e = 1 + i % 48, max(1 + i % 48, 1 + i * 7 % 48)
                mk = (1 << e - b + 1) - 1
                v = patch(w, v, ("range", b, e, x & mk))
                v = patch(w, v, ("bit", b, i & 1))
            elif what == "mixed":
                w.value = v = x
                for k in GROUPS:
                    y = (x >> 5) + SHIFT[k] & 4095
                    setattr(w, k, y)
                    v = v & ~(4095 << SHIFT[k]) | y << SHIFT[k]
                    rejects(k, VE, setattr, w, k, 4096 + i)
            else:
                x &= 4095
                setattr(w, what, x)
                v = v & ~(4095 << SHIFT[what]) | x << SHIFT[what]
            expect("%s, time %d" % (what, i + 1), (w.value, int(w.data)),
                   (v, v))
            if what in GROUPS or what == "mixed":
                expect("groups, time %d" % (i + 1),
                       [getattr(w, k) for k in GROUPS],
                       [v >> SHIFT[k] & 4095 for k in GROUPS])

    def crowd(arg):
        """Thousands of words alive: each keeps its own contents."""
        n, = arg
        kinds = ["Word", "InstructionWord"] + CONSTANTS
        ws = []
        for i in range(n):
            k = kinds[i % len(kinds)]
            v = i * 0x9E3779B97F4A7C15 & M48
            if k == "InstructionWord":
                w = W.InstructionWord(*[v >> SHIFT[g] & 4095
                                        for g in GROUPS])
            else:
                w = getattr(W if k == "Word" else impl.ins, k)(v)
            ws.append([w, v])
        for r in range(3):
            for i, pair in enumerate(ws):
                w, v = pair
                if w.value != v or int(w.data) != v:
                    fail("word %d of %d holds %o, expected %o", i, n,
                         w.value, v)
                pair[1] = v = v ^ M48 >> i % 40
                if r == 1 and isinstance(w, W.InstructionWord):
                    for g in GROUPS:
                        setattr(w, g, v >> SHIFT[g] & 4095)
                else:
                    w.value = v

    for k, f in (("build", build), ("bits", bits), ("reject", reject),
                 ("again", again), ("crowd", crowd),
                 ("rejword", rejword), ("const", const), ("hist", hist),
                 ("alive", alive), ("held", held)):
        ctx.kind(k, f)

    def run():
        hops = [("value", 0), ("value", M48), ("value", 0o1234567076543210),
                ("bad", M48 + 1), ("bad", -1), ("dset",), ("dclear",),
                ("dvalue", 0), ("dvalue", 0o7007), ("bit", 1, 1),
                ("bit", 48, 0), ("held", 1, 48, 0), ("held", 10, 20, 0o3777),
                ("held", 1, 48, M48), ("command", 0), ("command", 4095),
                ("c", 0), ("a", 0o1234), ("b", 4095),
                ("badgroup", "command", 4096), ("badgroup", "a", -1),
                ("badgroup", "b", 4096), ("badgroup", "c", M48),
                ("badrange", 25, 36, 4096), ("badrange", 48, 1, 0)]
        for name in ["InstructionWord", "Word"] + CONSTANTS:
            for t in itertools.product(hops, repeat=3):
                if name in CONSTANTS[1:] and t[0][0] != "value":
                    continue
                ctx.case("held", [name, t])
                ctx.count(states=3, transitions=3, traces=1)
        n = 70000 if ctx.deep else 5000
        for what in list(GROUPS) + ["mixed"]:
            ctx.case("again", [what, n])
            ctx.count(states=n, transitions=n, traces=1)
        for what in ("value", "refused", "bits"):
            for name in ("Word", CONSTANTS[0], CONSTANTS[-1]):
                ctx.case("again", [what, n, name])
                ctx.count(states=n, transitions=n, traces=1)
        for k in (300, 5000, 70000) if ctx.deep else (300, 5000):
            ctx.case("crowd", [k])
            ctx.count(states=k, transitions=3 * k, traces=1)
        bgs = ("zero", "ones", "alt", "own")
        for name in GROUPS:
            for v in range(4096):
                for bg in bgs:
                    ctx.case("build", [name, v, bg])
                    ctx.count(states=1, transitions=9, traces=1)
        for name in CONSTANTS:
            for other in CONSTANTS + ["Word", "InstructionWord"]:
                ctx.case("alive", [name, other])
                ctx.count(states=4, transitions=12, traces=1)
        pats = [0, M48, M48 // 3, M48 // 3 << 1 & M48, 0o0123456765432101]
        pats += [1 << i for i in range(48)] + \
            [M48 ^ 1 << i for i in range(48)] + \
            [(1 << i) - 1 for i in range(49)]
        for v in pats:
            ctx.case("bits", v)
            ctx.count(states=1, transitions=4 * 52, traces=1)
            for name in CONSTANTS:
                ctx.case("const", [name, v])
                ctx.count(states=1, transitions=9, traces=1)
        for name in CONSTANTS:
            for bad in (-1, -M48, M48 + 1, M48 + 2, 1 << 49):
                ctx.case("const", [name, bad])
                ctx.count(states=1, transitions=1, traces=1)
        for name in GROUPS:
            for bad in (-4096, -2, -1, 4096, 4097, 8191, 8192, 1 << 24,
                        M48, M48 + 1):
                for bg in (0, 4095, 0o2525):
                    ctx.case("reject", [name, bad, bg])
                    ctx.count(states=1, transitions=10, traces=1)
        for bad in (-1, -2, -M48, M48 + 1, M48 + 2, 1 << 49, 1 << 60):
            for v in (0, M48, 0o1234567076543210):
                ctx.case("rejword", [bad, v])
                ctx.count(states=1, transitions=3, traces=1)
        st = explore(ctx, "hist", None, make, ops(), step, (0,) * 4,
                     max_depth=5 if ctx.deep else 4,
                     max_states=400000)
        ctx.section("histories", states=st[0], depth=st[1])
        ctx.sample({"history": ops()[:3]})
        ctx.bounds = {"history depth": 5 if ctx.deep else 4, "ops": len(ops()),
                      "group values": "all 4096 per group"}
    return run


# ---- C25 end to end -------------------------------------------------------

def stored(ctx):
    """Assembled instruction -> instruction word -> memory -> decoded back."""
    impl = Impl()
    mem = import_repo("h800.memory")
    state = {}

    def bank():
        if "b" not in state:
            state["b"] = mem.MemoryBank()
        return state["b"]

    def one(arg):
        m, kw, want, addr, a, b, c = arg
        o = impl.cls(m)(**kw)
        w = ok("instruction word", impl.word.InstructionWord, o.value, a, b,
               c)
        bk = bank()
        bk[addr] = w.value
        got = bk[addr]
        v = want << 36 | a << 24 | b << 12 | c
        expect("%s%r stored" % (m, kw), got, v)
        r = impl.word.InstructionWord()
        r.value = got
        for k, x in (("command", want), ("a", a), ("b", b), ("c", c)):
            expect("%s%r decoded %s" % (m, kw, k), getattr(r, k), x)
        for i, x in (("addr+1", (addr + 1) % 2048),):
            expect("neighbour", bk[x], state.setdefault("m", {}).get(x, 0))
        state["m"][addr] = v

    MODULES = ("MemoryBank", "MemoryModule", "ExpansionMemoryModule")

    def fill(arg):
        """A whole bank or module filled with the instruction set, written
        forwards, backwards or in ranges, beside another one."""
        name, how, off = arg
        prog = [(m, kw, want) for m in TABLE for kw, want in argspace(m)]
        made = {}

        def word(i):
            j = (i * 17 + off) % len(prog)
            m, kw, want = prog[j]
            if j not in made:
                made[j] = impl.cls(m)(**kw).value
            abc = (i & 4095, i * 5 + off & 4095, 4095 - (i * 3 & 4095))
            w = impl.word.InstructionWord(made[j], *abc)
            return w.value, want << 36 | abc[0] << 24 | abc[1] << 12 | abc[2]
        M = ok(name, getattr(mem, name))
        other = ok(name, getattr(mem, name))
        banks = [M] if name == "MemoryBank" else list(range(
            4 if name == "MemoryModule" else 8))
        size = len(banks) * 2048
        img = [word(i) for i in range(size)]

        def bank(obj, b):
            return obj if name == "MemoryBank" else obj[b]

        def put_(obj, i, v):
            if name == "MemoryBank":
                obj[i] = v
            else:
                obj[i // 2048][i % 2048] = v
        order = range(size) if how != "down" else range(size - 1, -1, -1)
        if how == "range":
            for b in range(len(banks)):
                for k in range(0, 2048, 128):
                    i = b * 2048 + k
                    bank(M, b)[k:k + 128] = img[i][0]
                    for j in range(1, 127):
                        put_(M, i + j, img[i + j][0])
                    img[i + 127] = img[i]
        else:
            for i in order:
                put_(M, i, img[i][0])
                ctx._tick += 1
        put_(other, 5, img[6][0])
        for b in range(len(banks)):
            bk = bank(M, b)
            words = bk[0:2048] if how == "range" else \
                [bk[i] for i in range(2048)]
            for i in range(2048):
                want = img[b * 2048 + i][1]
                got = words[i]
                expect("%s bank %d word %d" % (name, b, i), got, want)
                if i % 4 == off % 4:
                    r = impl.word.InstructionWord()
                    r.value = got
                    for k, sh in SHIFT.items():
                        expect("decoded %s" % k, getattr(r, k),
                               want >> sh & 4095)
            ob = bank(other, b)
            for i in range(0, 2048, 5 if b == 0 else 97):
                expect("another %s, bank %d word %d" % (name, b, i), ob[i],
                       img[6][1] if (b, i) == (0, 5) else 0)

    PATCHES = [("bit", 48, 1), ("bit", 48, 0), ("bit", 1, 1), ("bit", 25, 1),
               ("range", 37, 48, 0o77), ("range", 13, 24, 0),
               ("range", 25, 36, 4095), ("range", 37, 48, 0),
               ("dset", 40), ("dclr", 40), ("dclr", 13), ("dset", 36),
               ("range", 20, 40, 0o7654321), ("dclr",), ("bit", 37, 1),
               ("dset",), ("bit", 12, 0), ("dvalue", 0o0001000200030004)]

    def decoded(w, v, label):
        for k, sh in SHIFT.items():
            if getattr(w, k) != v >> sh & 4095:
                fail("%s: group %s of %016o reads %o", label, k, v,
                     getattr(w, k))
        expect(label, w.value, v)

    def reuse(arg):
        """One instruction word carries the instructions of a program one
        after another: loaded, decoded, patched, stored back, reloaded."""
        m, abc = arg
        bk = mem.MemoryBank()
        w, model = impl.word.InstructionWord(), {}
        for n, (kw, want) in enumerate(argspace(m)):
            code = impl.cls(m)(**kw).value
            addr = n * 31 % 2048
            new = impl.word.InstructionWord(code, *abc)
            v = want << 36 | abc[0] << 24 | abc[1] << 12 | abc[2]
            decoded(new, v, "%s%r new" % (m, kw))
            bk[addr] = new.value
            w.value = bk[addr]
            decoded(w, v, "%s%r loaded" % (m, kw))
            p = PATCHES[n % len(PATCHES)]
            x = patch(w, v, p)
            decoded(w, x, "%s%r after %r" % (m, kw, p))
            w.value = bk[addr]
            decoded(w, v, "%s%r reloaded" % (m, kw))
            p2 = PATCHES[(n * 5 + 3) % len(PATCHES)]
            x = patch(w, patch(w, v, p2), p)
            decoded(w, x, "%s%r after %r, %r" % (m, kw, p2, p))
            w.b = code
            x = x & ~(4095 << 12) | want << 12
            decoded(w, x, "%s%r B group changed" % (m, kw))
            bk[addr] = w.value
            model[addr] = x
            r = impl.word.InstructionWord(4095, 4095, 4095, 4095)
            r.value = bk[addr]
            decoded(r, x, "%s%r stored back" % (m, kw))
            w.value = 0
            decoded(w, 0, "%s%r zeroed" % (m, kw))
        for p in PATCHES:
            for q in PATCHES:
                w.value = v
                x = patch(w, v, p)
                decoded(w, x, "after %r" % (p,))
                w.c = 0
                x &= ~4095
                decoded(w, x, "C group cleared")
                x = patch(w, x, q)
                decoded(w, x, "after %r, C cleared, %r" % (p, q))
        for i in range(2048):
            if bk[i] != model.get(i, 0):
                fail("word %d holds %016o, expected %016o", i, bk[i],
                     model.get(i, 0))

    ORDERS = [("command", "a", "b", "c"), ("c", "b", "a", "command"),
              ("a", "command", "c", "b"), ("b", "c", "command", "a")]

    def assign(arg):
        """Every encoding of one instruction put into a word that already
        holds something, group by group, in several orders."""
        m, abc, back = arg
        bk = mem.MemoryBank()
        for n, (kw, want) in enumerate(argspace(m)):
            code = impl.cls(m)(**kw).value
            g = dict(zip(GROUPS, (want,) + tuple(abc)))
            v = want << 36 | abc[0] << 24 | abc[1] << 12 | abc[2]
            for order in ORDERS:
                w = impl.word.InstructionWord(*[
                    4095 ^ g[k] if back is None else back for k in GROUPS])
                for k in order:
                    setattr(w, k, code if k == "command" else g[k])
                decoded(w, v, "%s%r assigned %r" % (m, kw, order))
            # the command of a word replaced by another and back
            w.command = 4095 ^ want
            w.command = code
            decoded(w, v, "%s%r command replaced" % (m, kw))
            bk[n % 2048] = w.value
            r = impl.word.InstructionWord(c=abc[2], command=code, b=abc[1],
                                          a=abc[0])
            decoded(r, v, "%s%r by keyword" % (m, kw))
            w.value = bk[n % 2048]
            decoded(w, v, "%s%r loaded" % (m, kw))

    CORNERS = [sum(g << sh for g, sh in zip(t, (36, 24, 12, 0)))
               for t in itertools.product((0, 1, 4094, 4095), repeat=4)]

    def corners(arg):
        """Every word of extreme groups, at every address of a bank."""
        lo, hi = arg
        bk = mem.MemoryBank()
        w = impl.word.InstructionWord()
        for v in CORNERS[lo:hi]:
            for i in range(2048):
                bk[i] = v
                ctx._tick += 1
            got = bk[0:2048]
            for i in range(2048):
                if bk[i] != v or got[i] != v:
                    fail("word %d holds %016o, expected %016o", i, bk[i], v)
            for i in (0, 511, 1023, 1024, 2047):
                w.value = bk[i]
                decoded(w, v, "word %d" % i)
            for i, x in enumerate(bk):
                if x.value != v:
                    fail("word %d yields %016o, expected %016o", i, x.value,
                         v)

    def everywhere(arg):
        """One instruction (all its codes) at every address of a bank."""
        m, abc = arg
        bk = mem.MemoryBank()
        w = impl.word.InstructionWord()
        codes = {}
        for kw, want in argspace(m):
            codes.setdefault(want, kw)
        for want, kw in codes.items():
            g = [want if x == "code" else x for x in abc]
            new = impl.word.InstructionWord(impl.cls(m)(**kw).value, *g)
            v = want << 36 | g[0] << 24 | g[1] << 12 | g[2]
            bk[0:2048] = new.value
            ctx._tick += 1
            if bk[0:2048] != [v] * 2048:
                fail("%s%r: a bank filled with %016o does not read so", m,
                     kw, v)
            for i in range(2048):
                if bk[i] != v:
                    fail("%s%r: word %d holds %016o, expected %016o", m, kw,
                         i, bk[i], v)
            w.value = bk[want & 2047]
            decoded(w, v, "%s%r loaded" % (m, kw))

    def around(arg):
        """Every code of one instruction stored at the edges of a bank that
        is full of something else: nothing else changes."""
        m, abc, fill = arg
        bk = mem.MemoryBank()
        model = [fill ^ i if fill is not None else 0 for i in range(2048)]
        for i, v in enumerate(model):
            bk[i] = v
        for n, (kw, want) in enumerate(argspace(m)):
            v = want << 36 | abc[0] << 24 | abc[1] << 12 | abc[2]
            w = impl.word.InstructionWord(impl.cls(m)(**kw).value, *abc)
            for addr in (0, 1, 1023, 1024, 2047):
                ctx._tick += 1
                old = model[addr]
                bk[addr] = w.value
                model[addr] = v
                if bk[0:2048] != model:
                    fail("%s%r %r stored at %d in a bank of %r: other words "
                         "changed", m, kw, abc, addr, fill)
                bk[addr] = old
                model[addr] = old

    ctx.kind("around", around)
    ctx.kind("everywhere", everywhere)
    ctx.kind("corners", corners)
    ctx.kind("assign", assign)
    ctx.kind("one", one)
    ctx.kind("fill", fill)
    ctx.kind("reuse", reuse)

    def run():
        n = 0
        for k in range(0, len(CORNERS), 4):
            ctx.case("corners", [k, k + 4])
            ctx.count(states=4 * 2048, transitions=12 * 2048, traces=4)
        for m in TABLE:
            for abc in ((0, 0, 0), ("code", "code", "code"),
                        (0o2525, 0, 0o5252))[:3 if ctx.deep else 2]:
                ctx.case("everywhere", [m, abc])
                k = len(argspace(m)) * 2048
                ctx.count(states=k, transitions=3 * k, traces=1)
            for abc in ((0, 0, 0), (4095, 4095, 4095), (0, 2048, 1)):
                for fill in ((1 << 48) - 1, 0o0123456701234567, None):
                    ctx.case("around", [m, abc, fill])
                    k = len(argspace(m))
                    ctx.count(states=k * 5, transitions=k * 10, traces=k)
            for abc in ((0, 0, 0), (4095, 0, 1), (0o1234, 0o5670, 0o0707)):
                ctx.case("reuse", [m, abc])
                k = len(argspace(m))
                for back in (None, 4095, 0):
                    ctx.case("assign", [m, abc, back])
                    ctx.count(states=4 * k, transitions=20 * k, traces=1)
                ctx.count(states=5 * k + 3 * len(PATCHES) ** 2,
                          transitions=8 * k, traces=1)
        for name in MODULES:
            for how in ("up", "down", "range"):
                for off in range(8 if ctx.deep else 4):
                    ctx.case("fill", [name, how, off])
                    k = {"MemoryBank": 1, "MemoryModule": 4}.get(name, 8)
                    ctx.count(states=k * 2048, transitions=k * 4096,
                              traces=1)
        for m in TABLE:
            for kw, want in argspace(m):
                for a, b, c in ((0, 0, 0), (4095, 4095, 4095),
                                (0o1234, 0o5670, 0o0707)):
                    ctx.case("one", [m, kw, want, n % 2048, a, b, c])
                    ctx.count(states=1, transitions=3, traces=1)
                    n += 1
                if ctx.deep:
                    for k in range(12):
                        for abc in ((4095 ^ 1 << k, 4095, 4095),
                                    (4095, 4095 ^ 1 << k, 4095),
                                    (4095, 4095, 4095 ^ 1 << k)):
                            ctx.case("one", [m, kw, want, n % 2048, *abc])
                            ctx.count(states=1, transitions=3, traces=1)
                            n += 1
                if ctx.wide:
                    for k in range(12):
                        for abc in ((1 << k, 0, 0), (0, 1 << k, 0),
                                    (0, 0, 1 << k)):
                            ctx.case("one", [m, kw, want, n % 2048, *abc])
                            ctx.count(states=1, transitions=3, traces=1)
                            n += 1
        bk, mm = bank(), state["m"]
        for i in range(2048):
            expect("final word %d" % i, bk[i], mm.get(i, 0))
        ctx.sample(["BA", {"sequence": 1, "mask": 31}, 4095])
        ctx.bounds = {"instructions": "all encodings", "stores": n}
    return run
