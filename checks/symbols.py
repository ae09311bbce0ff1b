"""C16-C18: symbol tables against a card-by-card reference model."""
import copy
import io
import itertools
import os
import sys

from mc.core import (expect, fail, ok, import_repo, outcome, explore, freeze)
from checks.cards import put, card_model, MORE, ODDCHARS

PREFIXES = ("B", "F", "L", "S", "X", "Z")


def build_model(name, cards, table, reports=None):
    """cards: [(file, line number, text)] of one source file after includes.
    Returns the number of errors; table maps
    (tag, segment, subsegment, type) -> (file, line, lognum, tagtype, args,
    operation)."""
    seg = os.path.splitext(name)[0]
    sub = "1"
    errs = 0
    for fn, ln, text in cards:
        c = card_model(text)
        if c["column8"] == "*":
            continue
        op = c["operation"]
        if op and op.startswith("SETLOC"):
            sub = op.split(",")[1].strip() if "," in op else "0"
        if not c["label"]:
            continue
        label = c["label"].replace(" ", "")
        parts = label.split(",")
        if label != label.upper() or len(parts) > 2 or \
                (len(parts) == 2 and parts[0] not in ("B", "F", "S", "Z")) \
                or op is None:
            errs += 1
            if reports is not None:
                reports.append(label)
            continue
        tag = parts[-1]
        kind = "complex" if op in ("ASSIGN", "TAS") else "simple"
        args = (c["operand1"], c["operand2"], c["operand3"])
        entry = (fn, ln, c["lognum"], parts[0] if len(parts) == 2 else " ",
                 args, op)
        key = (tag, seg, sub, kind)
        old = table.get(key)
        if old is None:
            table[key] = entry
        elif op == "EQUALS" and old[5] == "EQUALS" and old[4] == args:
            pass
        elif op == "TAS" and old[5] == "TAS":
            table[key] = entry
        else:
            errs += 1
            if reports is not None:
                reports.append(tag)
    return errs


def flat(symtab):
    out = {}
    for tag in symtab:
        for seg in symtab[tag]:
            for sub in symtab[tag][seg]:
                for kind, e in symtab[tag][seg][sub].items():
                    out[tag, seg, sub, kind] = (e["file"], e["line"],
                                                e["lognum"], e["tagtype"])
    return out


def build(st, name, table, want_reports, verbose=False):
    """buildSymbolTable, with what it reports compared: one message per
    error, in source order, each naming the symbol; and the same verbosely,
    into a copy of the table."""
    copy = {tag: {seg: {sub: dict(e) for sub, e in subs.items()}
                  for seg, subs in segs.items()}
            for tag, segs in table.items()}
    table, errs = build1(st, name, table, want_reports, verbose)
    if not verbose:
        t2, e2 = build1(st, name, copy, want_reports, True)
        expect("errors of %s, verbosely" % name, e2, errs)
        if flat(t2) != flat(table):
            fail("%s: the verbose build differs", name)
    return table, errs


def build1(st, name, table, want_reports, verbose):
    old = sys.stderr, sys.stdout
    sys.stderr = buf = io.StringIO()
    sys.stdout = io.StringIO()
    try:
        table, errs = ok("build %s" % name, st.buildSymbolTable, name, table,
                         verbose)
    finally:
        sys.stderr, sys.stdout = old
    got = [ln for ln in buf.getvalue().split("\n")
           if ln.startswith("*** ERROR")]
    if len(got) != len(want_reports):
        fail("%s: %d errors reported, expected %d (%r)", name, len(got),
             len(want_reports), want_reports)
    for g, w in zip(got, want_reports):
        if w not in g.split():
            fail("%s: error reported as %r, expected one about %s", name, g,
                 w)
    return table, errs


def compare(symtab, model, label):
    got = flat(symtab)
    want = {k: v[:4] for k, v in model.items()}
    if got != want:
        for k in sorted(set(got) | set(want)):
            if got.get(k) != want.get(k):
                fail("%s: %s of segment %r subsegment %r (%s): got %r, "
                     "expected %r", label, k[0], k[1], k[2], k[3],
                     got.get(k), want.get(k))


def C(n, label="", op="", a="", b="", c="", col1=" ", col8=" "):
    return put(c1=col1, c2="%06d" % n, c8=col8, c9=label, c20=op, c33=a,
               c47=b, c61=c)


KINDS = {
    "A": C(10, "ALPHA", "BA", "X"),
    "B": C(20, "BETA", "RESERVE", "5"),
    "a": C(30, "ALPHA", "TX", "Y"),
    "E": C(40, "ALPHA", "EQUALS", "1", "2", "3"),
    "e": C(45, "ALPHA", "EQUALS", "1", "2", "3"),
    "F": C(50, "ALPHA", "EQUALS", "1", "2", "4"),
    "G": C(55, "ALPHA", "EQUALS", "1", "", "3"),
    "C": C(60, "ALPHA", "ASSIGN", "3,0"),
    "c": C(65, "ALPHA", "ASSIGN", "4,0"),
    "T": C(70, "ALPHA", "TAS", "3,0"),
    "t": C(75, "ALPHA", "TAS", "N,R1,1"),
    "1": C(80, "", "SETLOC,1"),
    "2": C(85, "", "SETLOC,2C"),
    "0": C(90, "", "SETLOC"),
    "s": C(91, "", "SETLOC, 3"),
    "L": C(92, "ALPHA", "SETLOC,2C"),
    "x": C(95, "", "SETLOC,7", col8="*"),
    "*": C(100, "ALPHA", "BA", col8="*"),
    "l": C(110, "alpha", "BA"),
    "p": C(120, "F,ALPHA", "BA"),
    "z": C(125, "Z,BETA", "EQUALS", "X0"),
    "w": C(127, "F , ALPHA", "BA"),
    "q": C(130, "Q,ALPHA", "BA"),
    "k": C(135, "L,ALPHA", "BA"),
    "X": C(136, "X,GAMMA", "BA"),
    "m": C(140, "F,A,B", "BA"),
    "n": C(150, "ALPHA"),
    "N": C(155, "GAMMA"),
    "P": C(160, "ALPHA", "BA", col1="R"),
    "_": C(170, "", "BA", "Z"),
    "S": C(180, "AL PHA", "BA"),
    "D": C(190, "DELTA", "DA,M1", "Z"),
    "v": C(200, ",ALPHA", "BA"),
    "f": C(201, "f,ALPHA", "BA"),
    "Y": C(202, "ABCDEFGHIJK", "OCT", "1"),
    "y": C(203, "Z,ABCDEFGHI", "OCT", "1"),
    "o": put(c9="ALPHA", c20="OCT"),
    "u": C(205, "ALPHA,", "BA"),
    "3": C(206, "", "SETLOC,3,4"),
    "4": C(207, "", "SETLOC ,4"),
    "5": C(208, "F,ALPHA", "EQUALS", "1", "2", "3"),
    "6": C(209, "ALPHA", "EQUALS", "1"),
    "7": C(210, "ALPHA", "EQUALS"),
    "8": C(211, "ALPHA", "TAS,1", "3,0"),
    "9": C(212, "ALPHA", "ASSIGN,1", "3,0"),
    "H": C(213, "ALPHA2", "BA") + "  ",
    "I": C(214, "ALPHA", "EQUALS", "", "", "", col1="P"),
    "J": C(215, "BETA", "ASSIGN", "3,0"),
    "K": C(216, "B.T-1/2", "BA"),
}


def zoo():
    """Every combination of columns 1 and 8, shape of the label, operation
    and remaining fields; each card has a symbol and a character of its
    own."""
    out = {}
    labels = ("", "%s", "F,%s", "Z, %s", "%s %s", "q%s", "x,%s", "F,%s,1",
              "F%s", "%s,", "1%s")
    ops = ("", "BA", "BA,M1", "BA, M1", "B A", " BA", ",M1", "BA,", "ba",
           "ZZ", "ZZ,M1", "NN,M1,2", "SETLOC", "SETLOC,5", "SETLOC, 6X",
           "SETLOCX,7", "EQUALS", "ASSIGN", "TAS", "TX", "TX,M1", "TX , M1",
           "RESERVE", "ALF", "OCT,1", "*", "BA*")
    rests = ({}, {"c33": "X,1", "c47": "Y", "c61": "Z"},
             {"c76": "*", "c81": "BA  REMARK"}, {"c33": "*", "c47": "BA,M1"})
    for i, (c1, c8, lab, op, rest) in enumerate(itertools.product(
            " SPRLX#"[:6], " *@T", labels, ops, rests)):
        if c1 not in " PR" and c8 in "@T":
            continue
        tag = "T%d" % i
        out[chr(0xF0000 + i)] = put(
            c1=c1, c2="%06d" % (i * 10 % 1000000), c8=c8,
            c9=(lab.replace("%s", tag))[:11], c20=op, **rest) + \
            " " * (i % 7 == 0)
    # special characters in the label and operation; fields that coincide
    for x in map(chr, range(33, 127)):
        for lab, op in itertools.product(
                ("", "T%d" + x, x + "T%d", "F,T" + x + "%d"),
                ("BA", "BA" + x, x + "BA", "B" + x + "A", "ZZ" + x,
                 "TX,M" + x, "SETLOC," + x)):
            i += 1
            out[chr(0xF0000 + i)] = put(
                c2="%06d" % i, c9=lab.replace("%d", str(i))[:11],
                c20=op, c33=x)
    # any character in the other fields, in the label and the operation
    for x in ODDCHARS:
        for lab, op, rest in (
                ("T%d", "BA", {"c33": "A" + x + "B"}),
                ("T%d", "TX,M1", {"c47": x, "c61": x + "Q"}),
                ("T%d", "ASSIGN", {"c76": "1" + x, "c81": "SEE" + x}),
                ("", "BA", {"c33": x + x + "Z" + x}),
                ("T%d" + x, "BA", {}), ("T" + x + "%d", "BA", {}),
                ("", "BA" + x, {}), ("T%d", "B" + x + "A", {}),
                ("", "BA,M" + x, {}), ("", "ZZ" + x + "Z", {})):
            i += 1
            if x.isspace() and lab.startswith("T" + x):
                continue        # the reports could not be taken apart
            out[chr(0xF0000 + i)] = put(
                c2="%06d" % i, c9=lab.replace("%d", str(i))[:11], c20=op,
                **rest)
    # blanks anywhere inside the label
    for bits in range(1 << 5):
        for pre in ("", "F,", "F ,", "q,"):
            for op in ("BA", "TAS", ""):
                i += 1
                lab = pre + "T" + "%05d" % i
                lab = pre + "".join(
                    ch + " " * (bits >> j & 1)
                    for j, ch in enumerate(lab[len(pre):]))
                if len(lab.rstrip()) > 11:
                    continue
                out[chr(0xF0000 + i)] = put(c2="%06d" % i, c9=lab[:11],
                                            c20=op)
    for op in ("BA", "ZZ", "TAS", "EQUALS", "ALF", "OCT", "T1"):
        for bits in range(1 << 5):
            i += 1
            at = {c: op for j, c in enumerate(("c9", "c33", "c47", "c61",
                                               "c81")) if bits >> j & 1}
            out[chr(0xF0000 + i)] = put(c20=op, **at)
            out[chr(0x100000 + i)] = put(c2="000010", c20=op + ",M1", **at)
    return out


ZOO = zoo()


def building(ctx):
    st = import_repo("h800.symbol_table")
    root = ctx.scratch()
    os.makedirs(os.path.join(root, "sub", "x.d"))
    os.makedirs(os.path.join(root, "sub", "sub"))
    os.chdir(os.path.join(root, "sub"))

    def write(name, code):
        with open(name, "w") as f:
            f.write("".join(KINDS[k] + "\n" for k in code))

    def cards(name, code):
        return [(name, i, KINDS[k]) for i, k in enumerate(code, 1)]

    def one(arg):
        code, verbose = arg
        write("prog.argus", code)
        model, rep = {}, []
        errs = build_model("prog.argus", cards("prog.argus", code), model,
                           rep)
        symtab, got = build(st, "prog.argus", {}, rep, verbose)
        expect("errors of %r" % code, got, errs)
        compare(symtab, model, code)

    def zooed(arg):
        before = None
        if isinstance(arg, (list, tuple)):
            arg, before = arg
        cs = [("zoo.argus", i, ZOO[k]) for i, k in enumerate(arg, 1)]
        with open("zoo.argus", "w") as f:
            f.write("".join(t + "\n" for _, _, t in cs))
        model, rep, table = {}, [], {}
        if before:
            write("a.argus", before)
            build_model("a.argus", cards("a.argus", before), model, rep)
            table, _ = build(st, "a.argus", table, rep)
            rep = []
        errs = build_model("zoo.argus", cs, model, rep)
        symtab, got = build(st, "zoo.argus", table, rep)
        expect("errors", got, errs)
        compare(symtab, model, "zoo")

    def multi(arg):
        """Several source files into one table."""
        table, model = {}, {}
        for name, code in arg:
            write(name, code)
        for name, code in arg:
            rep = []
            errs = build_model(name, cards(name, code), model, rep)
            table, got = build(st, name, table, rep)
            expect("errors of %s %r" % (name, code), got, errs)
        compare(table, model, repr(arg))

    def include(arg):
        main, at, inc = arg
        write("inc.argus", inc)
        with open("prog.argus", "w") as f:
            for i, k in enumerate(main):
                if i == at:
                    f.write("$ inc.argus\n")
                f.write(KINDS[k] + "\n")
            if at == len(main):
                f.write("$ inc.argus\n")
        seq = []
        for i, k in enumerate(main):
            if i == at:
                seq += cards("inc.argus", inc)
            seq.append(("prog.argus", i + 1 + (i >= at), KINDS[k]))
        if at == len(main):
            seq += cards("inc.argus", inc)
        model, rep = {}, []
        errs = build_model("prog.argus", seq, model, rep)
        table, got = build(st, "prog.argus", {}, rep)
        expect("errors of %r" % (arg,), got, errs)
        compare(table, model, repr(arg))

    def includes(arg):
        """Two files of the same name included from two directories."""
        files = {"x.argus": arg[0], "x.d/x.argus": arg[1],
                 "prog.argus": arg[2]}
        for name, code in files.items():
            with open(name, "w") as f:
                for k in code:
                    f.write({"(": "$ x.argus", ")": "$ x.d/x.argus"}
                            .get(k) or KINDS[k])
                    f.write("\n")

        def seq(name):
            out = []
            for i, k in enumerate(files[name], 1):
                if k in "()":
                    out += seq("x.argus" if k == "(" else "x.d/x.argus")
                else:
                    out.append((name, i, KINDS[k]))
            return out
        for prog in ("prog.argus", "x.d/x.argus"):
            model, rep = {}, []
            errs = build_model(prog, seq(prog), model, rep)
            table, got = build(st, prog, {}, rep)
            expect("errors of %s %r" % (prog, arg), got, errs)
            compare(table, model, repr(arg))

    def cardkept(arg):
        """The entry's card is the defining card."""
        write("prog.argus", arg)
        table, _ = st.buildSymbolTable("prog.argus", {})
        model = {}
        build_model("prog.argus", cards("prog.argus", arg), model)
        for (tag, seg, sub, kind), e in model.items():
            card = table[tag][seg][sub][kind]["card"]
            expect("defining card", card.line, KINDS[arg[e[1] - 1]])

    def prefix(arg):
        """Every possible one-letter prefix, alone."""
        with open("prog.argus", "w") as f:
            f.write(C(10, arg + ",TAG", "BA") + "\n")
        table, got = ok("build", st.buildSymbolTable, "prog.argus", {})
        good = arg in ("B", "F", "S", "Z")
        expect("errors for prefix %r" % arg, got, 0 if good else 1)
        if good:
            expect("tag type", table["TAG"]["prog"]["1"]["simple"]["tagtype"],
                   arg)
        expect("symbols for prefix %r" % arg, sorted(table),
               ["TAG"] if good else [])

    def twice(arg):
        """Building the same file into two fresh tables gives equal tables."""
        write("prog.argus", arg)
        t1, e1 = st.buildSymbolTable("prog.argus", {})
        t2, e2 = st.buildSymbolTable("prog.argus", {})
        expect("errors", e1, e2)
        if flat(t1) != flat(t2):
            fail("second build of %r differs", arg)

    def far(arg):
        """Definitions far down in a source."""
        k, code = arg
        with open("prog.argus", "w") as f:
            f.write("#\n" * (k - k // 2) + "R\n" * (k // 2))
            f.write("".join(KINDS[c] + "\n" for c in code))
        model = {}
        errs = build_model("prog.argus", [
            ("prog.argus", k + i, KINDS[c]) for i, c in enumerate(code, 1)],
            model)
        table, got = ok("build", st.buildSymbolTable, "prog.argus", {})
        expect("errors of %r" % (arg,), got, errs)
        compare(table, model, repr(arg))

    def generated(arg):
        """A long source: n definitions, m subsegments, k errors."""
        n, m, k = arg
        lines = []
        for j in range(m):
            lines.append(C(1, "", "SETLOC,%d" % (j + 10)))
            for i in range(n):
                lines.append(C(i, "T%d" % i, "OCT", str(j)))
                if i % 3 == 0:
                    lines.append(C(i, "T%d" % i, "ASSIGN", "%d,0" % j))
            for i in range(k):
                lines.append(C(i, "T%d" % (i % n), "OCT", str(j)))
        with open("prog.argus", "w") as f:
            f.write("".join(x + "\n" for x in lines))
        model = {}
        errs = build_model("prog.argus", [("prog.argus", i, x) for i, x in
                                          enumerate(lines, 1)], model)
        table, got = ok("build", st.buildSymbolTable, "prog.argus", {})
        expect("errors of %r" % (arg,), got, errs)
        compare(table, model, repr(arg))

    LABELS = ("ALPHA", "B,ALPHA", "F,ALPHA", "S,ALPHA", "Z,ALPHA", "alpha",
              "ALPHA,", "AL PHA", "Q,ALPHA", "X,ALPHA", "S ,ALPHA",
              "F,ALPHA,1", "BETA", "S,BETA")
    OPS = (("BA",), ("EQUALS", "1", "2", "3"), ("EQUALS", "1", "2", "4"),
           ("EQUALS",), ("ASSIGN", "3,0"), ("TAS", "3,0"), ("TAS", "4,0"),
           ("SETLOC,ALPHA",), ("SETLOC,alpha",), ("RESERVE", "1"), ("",))
    BETWEEN = ((), (C(1, "", "SETLOC"),), (C(1, "", "SETLOC,ALPHA"),),
               (C(1, "", "SETLOC,alpha"),), (C(1, "", "SETLOC,F"),
                                            C(2, "", "SETLOC,1")),
               (C(3, "ALPHA", "BA", col8="*"),), (C(4, "BETA", "BA"),))

    def given(arg):
        """A source written out: cards from the tables above."""
        lines = []
        for x in arg:
            if isinstance(x, int):
                lines += BETWEEN[x]
            else:
                lines.append(C(100 + 7 * len(lines), LABELS[x[0]],
                               *OPS[x[1]]))
        with open("pair.argus", "w") as f:
            f.write("".join(x + "\n" for x in lines))
        model, rep = {}, []
        errs = build_model("pair.argus", [("pair.argus", i, x) for i, x in
                                          enumerate(lines, 1)], model, rep)
        table, got = build(st, "pair.argus", {}, rep)
        expect("errors of %r" % lines, got, errs)
        compare(table, model, repr(lines))

    def across(arg):
        """Cards from the tables above in several files of one table."""
        model, table, total, want = {}, {}, 0, 0
        for k, cards in enumerate(arg):
            name = "across%d.argus" % k
            lines = []
            for x in cards:
                if isinstance(x, int):
                    lines += BETWEEN[x]
                else:
                    lines.append(C(10 * k + 7 * len(lines), LABELS[x[0]],
                                   *OPS[x[1]]))
            with open(name, "w") as f:
                f.write("".join(x + "\n" for x in lines))
            rep = []
            want += build_model(name, [(name, i, x) for i, x in
                                       enumerate(lines, 1)], model, rep)
            table, got = build(st, name, table, rep)
            total += got
        expect("errors of %r" % (arg,), total, want)
        compare(table, model, repr(arg))

    ctx.kind("across", across)

    def texts(arg):
        """A source given as columns and texts of each card."""
        lines = [put(**c) for c in arg]
        with open("text.argus", "w") as f:
            f.write("".join(x + "\n" for x in lines))
        model, rep = {}, []
        errs = build_model("text.argus", [("text.argus", i, x) for i, x in
                                          enumerate(lines, 1)], model, rep)
        table, got = build(st, "text.argus", {}, rep)
        expect("errors of %r" % lines, got, errs)
        compare(table, model, repr(lines))

    ctx.kind("texts", texts)
    ctx.kind("given", given)
    for k, f in (("one", one), ("multi", multi), ("include", include),
                 ("card", cardkept), ("prefix", prefix), ("twice", twice),
                 ("generated", generated), ("far", far), ("includes", includes),
                 ("zoo", zooed)):
        ctx.kind(k, f)

    SUBS = ("1", "01", "001", "0", "00", "10", "1.0", "+1", "-1", "1A", "A1",
            "A", "B", "Z", "SETLOC", "BA", "TAS", "ABCDEF", "12345", "99",
            "100", "*", "/", "1/2", "(1)", "$1", "#1", "1-", "A-B")

    def run():
        n = 0
        z = "".join(ZOO)
        # short labels, and labels that are words of the language
        short = ["".join(t) for d in (1, 2, 3) for t in itertools.product(
            map(chr, range(33, 127)) if d == 1 else "ABFLSXZ19,.-*/a" if
            d == 2 else "BFSZX1,", repeat=d)]
        words = ["SETLOC", "EQUALS", "ASSIGN", "TAS", "BA", "TX", "RESERVE",
                 "END", "X0", "RAC", "SIMPLE", "COMPLEX", "NONE", "1",
                 "12345678901", "ABCDEFGHIJK", "Z,X0", "F,F", "S,SETLOC",
                 "B,TAS", "Z,1", "F,12345678", "FILE", "LINE", "CARD"]
        for lab in short + words:
            if lab.endswith(","):
                continue        # no tag to report
            for op in ("BA", "TAS", "ASSIGN", "EQUALS", "SETLOC,Z", ""):
                ctx.case("texts", [{"c2": "10", "c9": lab, "c20": op},
                                   {"c2": "20", "c9": lab, "c20": "BA"},
                                   {"c2": "30", "c9": "Z," + lab[-1],
                                    "c20": op, "c33": lab}])
                ctx.count(states=1, transitions=3, traces=1)
        for s1 in SUBS:
            for s2 in SUBS:
                for op in ("BA", "TAS"):
                    ctx.case("texts", [
                        {"c9": "ALPHA", "c20": op},
                        {"c20": "SETLOC," + s1},
                        {"c9": "ALPHA", "c20": op, "c33": "1"},
                        {"c20": "SETLOC," + s2},
                        {"c9": "ALPHA", "c20": op, "c33": "2"}])
                    ctx.count(states=1, transitions=5, traces=1)
        for i in range(0, len(z), 100):
            ctx.case("zoo", z[i:i + 100])
            ctx.case("zoo", z[i:i + 100][::-1])
            n += 200
        pool = list(itertools.product(range(len(LABELS)), range(len(OPS))))
        for x in pool:
            for y in pool:
                for b in range(len(BETWEEN)):
                    if b == 0 or ctx.deep or (x[0] + y[0] + b) % 3 == 0:
                        ctx.case("given", [b, x, b, y] if b == 3 else
                                 [x, b, y])
                        n += 1
                # the two cards in two files, and again in the third
                b = (x[0] + y[1]) % len(BETWEEN)
                ctx.case("across", [[x], [y], [b, y, b, x]] if ctx.deep or
                         (x[1] + y[0]) % 3 == 0 else [[x], [y]])
                n += 1
        # two definitions whose fields differ in every small way
        forms = ["", "B C", "BC", "B  C", "b c", "bc", "0", "00", "1", "01",
                 "B,C", "B, C", "B,", ",B", "B", "+1", "-1", "(B)", "B.", "=",
                 "None", "C,B", "BCBCBCBCBCBCBC", "BCBCBCBCBCBCBD", "*", "#"]
        for op in ("EQUALS", "TAS", "ASSIGN", "OCT"):
            for x, y in itertools.product(forms, repeat=2):
                for col in ("c33", "c47", "c61", "c76", "c81", "c2"):
                    if col == "c2" and len(x + y) > 12 or \
                            col == "c76" and max(len(x), len(y)) > 5:
                        continue
                    for base in ({}, {"c33": "B", "c47": "C", "c61": "D"}):
                        c1 = dict(base, c9="ALPHA", c20=op)
                        c2 = dict(c1)
                        c1[col], c2[col] = x, y
                        if col in ("c33", "c47", "c61") or op == "EQUALS":
                            ctx.case("texts", [c1, c2])
                            n += 1
        # operands that moved to another field, and operations as written
        for x, y in itertools.product(itertools.product(("", "B"), repeat=3),
                                      repeat=2):
            two = [dict(zip(("c33", "c47", "c61"), t), c9="ALPHA",
                        c20="EQUALS") for t in (x, y)]
            ctx.case("texts", two)
            ctx.case("texts", two + two[:1])
            n += 2
        wr = ["EQUALS", "EQUALS,", "EQUALS,1", "EQUAL", "EQUALSX", "equals",
              "E QUALS", " EQUALS", "TAS", "TAS,1", "TASX", "tas", " TAS",
              "ASSIGN", "ASSIGN,1", "ASSIGNS", "assign", "A SSIGN",
              "SETLOC,1", "SETLOC,", "SETLOC ,2", "SETLOC, 2", "SETLOC,2,3"]
        for x, y in itertools.product(wr, repeat=2):
            for at in ("c9", "c10"):
                ctx.case("texts", [{at: "ALPHA", "c20": x, "c33": "1"},
                                   {"c9": "ALPHA", "c20": y, "c33": "1"}])
                n += 1
        few = [(0, 0), (1, 0), (2, 1), (3, 0), (4, 5), (5, 0), (0, 5),
               (0, 4), (2, 7), (8, 0), (0, 1)]
        for t in itertools.product(few, repeat=4 if ctx.deep else 3):
            ctx.case("given", list(t))
            ctx.case("given", [3] + list(t))
            n += 2
        al = list(KINDS)
        for d in (0, 1, 2):
            for t in itertools.product(al, repeat=d):
                ctx.case("one", ["".join(t), n % 17 == 0])
                n += 1
        mid = "AaBECcTt12sLx*lpqnPS" + ("eFGk0zDm56789oJ" if ctx.wide
                                        else "F05o")
        for t in itertools.product(mid, repeat=3):
            ctx.case("one", ["".join(t), False])
            n += 1
        core = "AECT12p" + ("aFtlz" if ctx.wide else "t")
        for t in itertools.product(core, repeat=4):
            ctx.case("one", ["".join(t), False])
            n += 1
        if ctx.deep:
            for t in itertools.product(al, repeat=3):
                ctx.case("one", ["".join(t), False])
                n += 1
            for t in itertools.product("AaBECcTt12sLx*lpqnP0", repeat=4):
                ctx.case("one", ["".join(t), False])
                n += 1
            for t in itertools.product("AECT12p", repeat=7):
                ctx.case("one", ["".join(t), False])
                n += 1
        else:
            for t in itertools.product("AECT12", repeat=6):
                ctx.case("one", ["".join(t), False])
                n += 1
        ctx.count(states=n, transitions=n * 3, traces=n)
        n = 0
        for x in ("A", "C", "2A", "l"):
            for y in ("B", "A(", "T1", "(E"):
                for d in (1, 2, 3):
                    for t in itertools.product("()2A", repeat=d):
                        ctx.case("includes", [x, y, "".join(t)])
                        n += 1
        names = [("a.argus", "b.argus"), ("./a.argus", "./b.argus"),
                 ("a.argus", "x.d/a.argus"), ("../a.argus", "../b.argus"),
                 ("a.v1.argus", "a.v2.argus"), ("noext", "a.argus"),
                 ("a.argus", "a.src"), ("a.argus", "A.argus"),
                 ("a.argus", "a.argus")]
        short = ["".join(t) for d in (1, 2) for t in
                 itertools.product("ACT2l", repeat=d)]
        for p in names:
            if p[0] == p[1]:
                continue
            for c1 in short:
                for c2 in short:
                    ctx.case("multi", [[p[0], c1], [p[1], c2]])
                    n += 1
        # every kind of card in a later or an included file
        for c1, c2 in itertools.product(KINDS, repeat=2):
            ctx.case("multi", [["a.argus", c1], ["b.argus", c2]])
            ctx.case("multi", [["a.argus", "2" + c1], ["a.src", c2 + "A"]])
            ctx.case("include", [c1, 0, c2])
            ctx.case("include", [c1, 1, c2])
            n += 4
        for i in range(0, len(z), 200):
            ctx.case("zoo", [z[i:i + 200], "B2A"])
            n += 200
        for i, nm in enumerate(MORE):
            if nm.split("/")[0] in (".", "..", "sub", nm) and \
                    nm[:7] != "sub/sub":
                for c in ("A", "2AC", "l"):
                    ctx.case("multi", [[nm, c], ["a.argus", "A2A"]])
                    ctx.case("multi", [["b", "A2A"], [nm, c + c]])
                    n += 2
        for t in itertools.product(["A", "C", "2A", "1A"], repeat=3):
            ctx.case("multi", [["f%d.argus" % i, c]
                               for i, c in enumerate(t)])
            n += 1
        for m in short:
            for at in range(len(m) + 1):
                for i in ("A", "2", "C", "2A", "A2", "l"):
                    ctx.case("include", [m, at, i])
                    n += 1
        for t in itertools.product("AaECTt2pB", repeat=3):
            ctx.case("card", "".join(t))
            ctx.case("twice", "".join(t))
            n += 2
        for a in (1, 2, 9, 10, 11, 40):
            for b in (1, 2, 9, 11, 30):
                for c in (0, 1, 10, 11):
                    ctx.case("generated", [a, b, c])
                    n += 1
        for arg in ((1, 300, 0), (1, 1030, 1), (1000, 2, 300), (5000, 1, 0),
                    (300, 1, 1100), (2, 120, 3), (1, 5000, 0)):
            ctx.case("generated", list(arg))
            n += 1
        for k in (98, 998, 999, 9998, 32767, 65535, 65536, 99998, 100000):
            for code in ("A", "AaC", "2A", "lA", "EE"):
                ctx.case("far", [k, code])
                n += 1
        for k in (9, 10, 11, 12, 101, 130, 300):
            ctx.case("multi", [["f%d.argus" % i, ("A2B", "lC", "AaE")[i % 3]]
                               for i in range(k)])
            n += 1
        for ch in "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789":
            ctx.case("prefix", ch)
            n += 1
        for p in ("FF", "BS", "SZ", "F1", "ZZ"):
            ctx.case("prefix", p)
            n += 1
        ctx.count(states=n, transitions=n * 2, traces=n)
        ctx.sample({"deck": [KINDS[k] for k in "A2a"]})
        ctx.bounds = {"cards per deck": "all decks of up to 2 cards over %d "
                      "card kinds, 3 over %d, 4 over %d" %
                      (len(al), len(mid), len(core)),
                      "files": "2 and 3 per table, 8 ways of naming them; "
                      "up to 300", "generated": "up to 40 tags x 30 "
                      "subsegments"}
        ctx.assumptions = ["Tags are non-empty; subsegment names are "
                           "compared as written."]
    return run


# ---------------------------------------------------------------------------

SHAPES = {  # -> {(segment, subsegment): types}
    "-": None,
    "s": {("p", "1"): "s"},
    "c": {("p", "1"): "c"},
    "b": {("p", "1"): "sc"},
    "S": {("q", "1"): "s"},
    "m": {("p", "1"): "c", ("q", "1"): "s"},
    "M": {("p", "1"): "s", ("q", "1"): "c"},
    "d": {("p", "0"): "c", ("p", "1"): "s"},
    "D": {("p", "1"): "c", ("q", "2"): "c"},
    "t": {("p", "1"): "s", ("q", "1"): "s"},
    "3": {("p", "1"): "c", ("p", "2"): "c", ("p", "3"): "s"},
    "4": {("p", "1"): "c", ("q", "1"): "c", ("r", "1"): "c", ("r", "2"): "s"},
    "5": {("p", "1"): "s", ("p", "2"): "sc", ("q", "0"): "s"},
}
T = {"s": "simple", "c": "complex"}


def make_table(spec):
    tab = {}
    for name, shape in spec:
        if SHAPES[shape] is None:
            continue
        for (seg, sub), kinds in SHAPES[shape].items():
            for k in kinds:
                tab.setdefault(name, {}).setdefault(seg, {}) \
                    .setdefault(sub, {})[T[k]] = {
                        "file": seg + ".argus", "line": 1, "lognum": "1",
                        "tagtype": " ", "card": name}
    return tab


def has(tab, name, kind):
    return any(kind in tab[name][g][s] for g in tab[name]
               for s in tab[name][g])


def queries(ctx):
    st = import_repo("h800.symbol_table")
    QUERY = ["A", "AB", "B", "BA", "ABA", "", "C", "a", "AC"]

    def q(spec):
        ask(make_table(spec))

    def evolve(arg):
        """One table object whose contents change between the queries, as
        when another file is added to it, beside another table."""
        tab, other = {}, make_table(arg[-1])
        for spec in arg:
            new = make_table(spec)
            for n in list(tab):
                if n not in new:
                    del tab[n]
            for n in new:
                if n in tab:
                    tab[n].clear()
                    tab[n].update(new[n])
                else:
                    tab[n] = new[n]
            ask(tab)
            ask(other, QUERY[:3])

    def odd(arg):
        """Names and queries with characters that mean something to pattern
        matchers."""
        names, queries = arg
        ask(make_table([(n, "scbm"[i % 4]) for i, n in enumerate(names)]),
            queries, False)

    def ask(tab, queries=QUERY, fuzzy=True):
        keep = copy.deepcopy(tab)
        absolute = [n for n in sorted(tab) if has(tab, n, "simple")]
        conly = [n for n in sorted(tab) if not has(tab, n, "simple")]
        expect("absolute symbols", list(st.getAbsoluteSymbols(tab)),
               absolute)
        expect("complex-only symbols",
               list(st.checkSymbolTable(tab, complexOnlyError=True)), conly)
        expect("default check", list(st.checkSymbolTable(tab)), [])
        expect("verbose check", list(st.checkSymbolTable(
            tab, verbose=True, complexOnlyError=True)), conly)
        expect("verbose default check", list(st.checkSymbolTable(
            tab, verbose=True)), [])
        expect("check by position", list(st.checkSymbolTable(
            tab, False, True)), conly)
        for name in queries:
            begins = [n for n in sorted(tab) if n.startswith(name)]
            ends = [n for n in sorted(tab) if n.endswith(name)]
            # neither a kind nor verbosity changes what is found otherwise
            for more in ({}, {"verbose": True}):
                expect("exact %r" % name,
                       st.findSymbolDef(tab, name, **more), tab.get(name))
                for k in ("simple", "complex"):
                    want = tab[name] if name in tab and has(tab, name, k) \
                        else None
                    expect("exact %r %s" % (name, k),
                           st.findSymbolDef(tab, name, symtype=k, **more),
                           want)
            for k in (None, "simple", "complex"):
                for v in (False, True) if k is None else (len(name) == 2,):
                    expect("beginning %r" % name, list(st.findSymbolDef(
                        tab, name, k, True, verbose=v)), begins)
                    expect("ending %r" % name, list(st.findSymbolDef(
                        tab, name, k, end=True, verbose=v)), ends)
            both = st.findSymbolDef(tab, name, begin=True, end=True)
            expect("beginning or ending %r" % name, sorted(set(both)),
                   sorted(set(begins + ends)))
            if name and fuzzy:
                near(tab, name, absolute)
        if tab != keep:
            fail("queries changed the table")

    def near(tab, name, absolute):
        f = list(st.findSymbolDef(tab, name, fuzzy=True))
        for k in ("simple", "complex"):
            expect("near matches, by kind", list(st.findSymbolDef(
                tab, name, symtype=k, fuzzy=True, verbose=k > "d")), f)
        if len(set(f)) != len(f) or not set(f) <= set(absolute):
            fail("near matches of %r: %r, absolute symbols %r", name, f,
                 absolute)
        expect("number of near matches of %r" % name, len(f),
               min(10, len(absolute)))
        if name in absolute and name not in f[:1]:
            fail("near matches of %r do not start with it: %r", name, f)

    def many(arg):
        n, kind = arg
        spec = [("T%02d" % i, "sc"[i % 2] if kind == "mix" else kind)
                for i in range(n)]
        tab = make_table(spec)
        absolute = [x for x in sorted(tab) if has(tab, x, "simple")]
        expect("absolute symbols", list(st.getAbsoluteSymbols(tab)),
               absolute)
        every = sorted(tab)
        if n > 60:
            every = every[:2] + every[n // 2:n // 2 + 2] + every[-2:]
        for name in ["T00", "T", "T99", "ZZ"] + every:
            near(tab, name, absolute)
            expect("exact %r" % name, st.findSymbolDef(tab, name),
                   tab.get(name))
            expect("ending", list(st.findSymbolDef(tab, name[1:], end=True)),
                   [x for x in sorted(tab) if x.endswith(name[1:])])
            expect("beginning", list(st.findSymbolDef(tab, name,
                                                      begin=True)),
                   [x for x in sorted(tab) if x.startswith(name)])

    def again(arg):
        """The same questions, over and over on the same table."""
        spec, n = arg
        tab = make_table(spec)
        for _ in range(n):
            ask(tab, QUERY[:5])

    ctx.kind("q", q)
    ctx.kind("again", again)
    ctx.kind("many", many)
    ctx.kind("evolve", evolve)
    ctx.kind("odd", odd)

    def run():
        n = 0
        names = ["A", "AB", "BA"]
        for t in itertools.product(SHAPES, repeat=3):
            ctx.case("q", list(zip(names, t)))
            n += 1
        for t in itertools.product(SHAPES if ctx.deep else "-scbmdt",
                                   repeat=4):
            ctx.case("q", list(zip(["ABA", "B", "A", "AB"], t)))
            n += 1
        some = [list(zip(names, t)) for t in itertools.product("-scm",
                                                               repeat=3)]
        for a in some:
            for b in some:
                ctx.case("evolve", [a, b])
                n += 3
        for t in itertools.product(some[1::7], repeat=3):
            ctx.case("evolve", list(t))
            n += 4
        marks = "*?.[]+-^$|()\\/%{}'\"=1_ "
        for x in marks:
            for y in marks:
                nm = ["A" + x + "B", "AB", "A" + x, x + "B", "A" + y + "B",
                      x + y, "AXB", "A", "B"]
                ctx.case("odd", [nm, nm + [x, y, "A" + x + y, "^A", ".*",
                                           "[A-Z]", "AB$", "ab", x + "b"]])
                n += 1
        # names of every length, with every part of them as a query
        for k in range(1, 21):
            long = "ABCDEFGHIJKLMNOPQRST"[:k]
            nm = [long, long[:-1] or "Q", long[1:] or "R", long[::-1],
                  long.lower(), long + long, "X" + long, long + "X"]
            nm = list(dict.fromkeys(nm))
            parts = {long[i:j] for i in range(k) for j in range(i, k + 1)}
            ctx.case("odd", [nm, nm + sorted(parts)])
            ctx.case("odd", [[long], nm + sorted(parts)])
            n += 2
        ctx.count(states=n, transitions=n * (4 + 6 * len(QUERY)), traces=n)
        for k in list(range(0, 16)) + [20, 21, 22, 40]:
            for kind in ("s", "c", "mix", "t"):
                ctx.case("many", [k, kind])
                ctx.count(states=1, transitions=9, traces=1)
        for k in (63, 64, 65, 66, 99, 100, 101, 102, 127, 128, 129, 199, 201,
                  255, 256, 257, 258, 499, 500, 501, 511, 512, 513, 999,
                  1000, 1001, 1023, 1024, 1025, 2001, 4097):
            for kind in ("s", "mix", "t"):
                ctx.case("many", [k, kind])
                ctx.count(states=1, transitions=40, traces=1)
        for spec in some[3::10]:
            n = 2000 if ctx.deep else 300
            ctx.case("again", [spec, n])
            ctx.count(states=1, transitions=50 * n, traces=1)
        ctx.sample({"table": [("A", "m"), ("AB", "s")], "shapes": SHAPES})
        ctx.bounds = {"tables": "all of 3 symbols x %d definition shapes, 4 "
                      "symbols x %d" % (len(SHAPES),
                                        len(SHAPES) if ctx.deep else 7),
                      "queries": QUERY}
        ctx.assumptions = [
            "Of near matches only soundness (defined, absolute, distinct, at "
            "most ten) and the exact name coming first are claimed, not the "
            "ranking."]
    return run


# ---------------------------------------------------------------------------

def tables(ctx):
    """C18: the assembler's symbol table object, explored as a state space."""
    st = import_repo("h800.symbol_table")

    NAMES = ("A", "B", "C", "D") if ctx.deep else ("A", "B", "C")

    # each way of adding a symbol comes from another place in the source
    ORIGIN = {None: ("f.argus", 11, "SEG", "2C"),
              5: ("g.argus", 12, "SEG", "1"), 0: ("f.argus", 0, "S2", "2C"),
              "X,1": ("sub/h.argus", 999, "S3", None)}

    def ops():
        o = []
        for n in NAMES:
            o += [("add", n, None, None), ("add", n, None, "absolute"),
                  ("add", n, 5, "absolute"),
                  ("add", n, 0, "absolute"), ("add", n, "X,1", "complex"),
                  ("upd", n, 7, "absolute"), ("upd", n, "Y,2", "complex"),
                  ("upd", n, 8, None), ("upd", n, None, None)]
        o += [("prune",), ("resolve",), ("lookup",), ("add", "", 1, None),
              ("upd", "ZZ", 1, "absolute"), ("print",)]
        return o

    # model: (defs = ((name, value, type, origin)...), undef list)
    def step(t, model, op):
        defs, undefs = dict((d[0], d[1:]) for d in model[0]), list(model[1])
        if op[0] == "add":
            org = ORIGIN.get(op[2], ("z", 1, "S", "1"))
            t.add(op[1], org[0], org[1], op[2], op[3], org[2], org[3])
            if op[1] and op[1] not in defs:
                defs[op[1]] = (op[2], op[3], org)
                if op[2] is None:
                    undefs.append(op[1])
        elif op[0] == "upd" and op[2] is None:
            # an update without a value, of a symbol that has none anyway
            if defs.get(op[1], (None,))[0] is None:
                t.update(op[1])
                if op[1] in defs:
                    defs[op[1]] = (None, None, defs[op[1]][2])
        elif op[0] == "upd":
            if op[3] is None:
                t.update(op[1], op[2])
            else:
                t.update(op[1], op[2], op[3])
            if op[1] in defs:
                defs[op[1]] = (op[2], op[3], defs[op[1]][2])
        elif op[0] == "prune":
            t.pruneUndefines()
            undefs = [n for n in undefs if defs[n][0] is None]
        elif op[0] == "resolve":
            t.resolve()
            undefs = [n for n in undefs if defs[n][0] is None]
        elif op[0] == "print":
            printed(t, defs)
        m = (tuple((n,) + defs[n] for n in sorted(defs)), tuple(undefs))
        check(t, defs, undefs, op)
        return m

    def printed(t, defs):
        """Both prints list exactly the symbols, sorted, and the undefined
        ones, in order; to a file or to standard output alike."""
        und = list(t.undefines)
        a, b, c, d = (io.StringIO() for _ in range(4))
        t.printTable(a)
        t.printUndefs(b)
        old = sys.stdout
        try:
            sys.stdout = c
            t.printTable()
            sys.stdout = d
            t.printUndefs()
        finally:
            sys.stdout = old
        expect("table printed on standard output", c.getvalue(),
               a.getvalue())
        expect("undefined symbols printed on standard output", d.getvalue(),
               b.getvalue())
        rows = {str(t.lookup(n)): n for n in defs}

        def names(text):
            return [rows[x] for x in text.splitlines() if x in rows]
        expect("symbols printed", names(a.getvalue()), sorted(defs) + und)
        expect("undefined symbols printed", names(b.getvalue()), und)
        if str(len(und)) not in b.getvalue():
            fail("number of undefined symbols not printed")

    def check(t, defs, undefs, op):
        expect("number of symbols after %r" % (op,), t.getNumSymbols(),
               len(defs))
        expect("symbols after %r" % (op,), sorted(t.symbols), sorted(defs))
        got = list(t.undefines)
        real = [n for n in undefs if defs[n][0] is None]
        if [n for n in got if defs.get(n, (0,))[0] is None] != real or \
                not set(got) <= set(undefs) or len(set(got)) != len(got):
            fail("undefined symbols after %r: %r, expected %r", op, got,
                 undefs)
        if op[0] in ("prune", "resolve"):
            expect("undefined symbols after %r" % (op,), got, real)
        expect("number of undefined symbols after %r" % (op,),
               t.getNumUndefs(), len(got))
        for n in NAMES + ("ZZ",):
            e = t.lookup(n)
            if n not in defs:
                expect("lookup %s after %r" % (n, op), e, None)
                continue
            v, ty, org = defs[n]
            expect("name", e.name, n)
            expect("value of %s after %r" % (n, op), e.value, v)
            expect("valid", bool(e.isValid()), v is not None)
            expect("absolute", bool(e.isAbsolute()),
                   v is not None and ty == "absolute")
            expect("complex", bool(e.isComplex()),
                   v is not None and ty != "absolute")
            expect("multiple", bool(e.isMultiple()), False)
            expect("file of %s after %r" % (n, op), e.file, org[0])
            expect("line of %s after %r" % (n, op), e.line, org[1])
            expect("segment of %s after %r" % (n, op), e.segment, org[2])
            expect("subsegment of %s after %r" % (n, op), e.subsegment,
                   org[3])

    def make(cfg):
        return st.SymbolTable()

    def hist(arg):
        t, m = make(None), ((), ())
        for op in arg[1]:
            m = step(t, m, freeze(op))

    def refs(arg):
        e = st.SymbolTableEntry("A", 1, "absolute")
        f = st.SymbolTableEntry("B", 2, "complex")
        for i, r in enumerate(arg):
            e.addReference(r)
            expect("references", list(e.references), arg[:i + 1])
            expect("other entry's references", list(f.references), [])

    def subset(arg):
        """n undefined symbols, any subset of them updated (in either
        order), then pruned or resolved; twice over."""
        n, bits, how, rev = arg
        t = st.SymbolTable()
        names = ["N%d" % i for i in range(n)]
        for i, x in enumerate(names):
            t.add(x, "f", i)
            expect("undefined so far", list(t.undefines), names[:i + 1])
        val = {}
        for part in (bits, bits >> 1 | 1, (1 << n) - 1):
            for i in (range(n - 1, -1, -1) if rev else range(n)):
                if part >> i & 1:
                    v = (i, "absolute") if i % 2 else ("C,%d" % i, "complex")
                    t.update(names[i], *v)
                    val[names[i]] = v
            if how == "prune":
                t.pruneUndefines()
            else:
                t.resolve(*([how] if how else []))
            expect("undefined after %s of %r" % (how, arg),
                   list(t.undefines), [x for x in names if x not in val])
            expect("number undefined", t.getNumUndefs(), n - len(val))
            expect("number of symbols", t.getNumSymbols(), n)
            for i, x in enumerate(names):
                e = t.lookup(x)
                expect("value of %s" % x, e.value, val.get(x, (None,))[0])
                expect("line of %s" % x, e.line, i)
            if n > 8:
                printed(t, dict.fromkeys(names))
        u = st.SymbolTable()
        expect("another table", (u.getNumSymbols(), list(u.undefines)),
               (0, []))

    def values(arg):
        """Any value but None defines a symbol, whatever it counts as."""
        first, second, other, kinds, how = arg
        t = st.SymbolTable()
        spec = (("A", first), ("B", None), ("C", other))
        for i, (n, v) in enumerate(spec):
            t.add(n, "f", i + 1, v, kinds[i])
        val = dict(spec)

        def look(when):
            for i, n in enumerate("ABC"):
                e = t.lookup(n)
                v = val[n]
                if type(e.value) is not type(v) or e.value != v:
                    fail("%s of %r: %s is %r", when, arg, n, e.value)
                expect("valid " + when, bool(e.isValid()), v is not None)
                expect("absolute " + when, bool(e.isAbsolute()),
                       v is not None and kinds[i] == "absolute")
                expect("complex " + when, bool(e.isComplex()),
                       v is not None and kinds[i] != "absolute")
        look("adding")
        expect("undefined after adding %r" % (arg,), list(t.undefines),
               [n for n, v in spec if v is None])
        for n, v in (("B", second), ("A", other)):
            t.update(n, v, kinds["ABC".index(n)])
            val[n] = v
            look("updating")
        t.pruneUndefines() if how else t.resolve()
        look("pruning")
        expect("undefined after updating %r" % (arg,), list(t.undefines),
               [n for n in "ABC" if val[n] is None])

    def lookups(names):
        """Only the very name finds a symbol."""
        t = st.SymbolTable()
        asked = []
        for i, n in enumerate(names):
            asked += [n, n.lower(), n.upper(), n + " ", " " + n,
                      n.strip(), n[:-1], n[1:], n + "X", n + "\n",
                      n + ",", n * 2]
        for i, n in enumerate(names):
            t.add(n, "f%d" % i, i, i if i % 2 else None, "absolute")
            for q in asked + ["", None]:
                e = t.lookup(q)
                want = names[:i + 1].index(q) if q in names[:i + 1] else None
                expect("line of %r among %r" % (q, names[:i + 1]),
                       None if e is None else e.line, want)
        for q in asked:
            if q and q not in names:
                t.update(q, 99, "absolute")
        expect("number of symbols", t.getNumSymbols(), len(names))
        expect("symbols", sorted(t.symbols), sorted(names))
        for i, n in enumerate(names):
            expect("value of %r" % n, t.lookup(n).value,
                   i if i % 2 else None)
        for q in asked:
            if q and q not in names and t.lookup(q) is None:
                t.add(q, "g", 7, 5, "absolute")
                expect("value of %r" % q, t.lookup(q).value, 5)
        for i, n in enumerate(names):
            expect("line of %r" % n, t.lookup(n).line, i)

    def refer(arg):
        """Symbols whose values name each other (or themselves), defined or
        not: a value is a value."""
        names, vals, order, how = arg
        t = st.SymbolTable()
        given = dict(zip(names, vals))
        for i, n in enumerate(names):
            early = order[i] == "add"
            t.add(n, "f", i, given[n] if early else None, "complex")
        val = {n: given[n] if o == "add" else None
               for n, o in zip(names, order)}
        undef = [n for n in names if val[n] is None]
        expect("undefined", list(t.undefines), undef)
        for r in range(2):
            for n, o in zip(names, order):
                if o == "update" and r == 0 or o == "late" and r == 1:
                    t.update(n, given[n], "complex")
                    val[n] = given[n]
            t.pruneUndefines() if how else t.resolve()
            undef = [n for n in undef if val[n] is None]
            expect("undefined after %r" % (arg,), list(t.undefines), undef)
            for n in names:
                expect("value of %s" % n, t.lookup(n).value, val[n])
                expect("valid", bool(t.lookup(n).isValid()),
                       val[n] is not None)

    def again(arg):
        """An operation, over and over on the same table."""
        what, n = arg
        t = st.SymbolTable()
        t.add("A", "f", 1, 1, "absolute", "S", "1")
        t.add("K", "g", 2)
        want, undefs = [1, "absolute"], ["K"]
        names = ["A", "K"]
        for i in range(n):
            if what in ("update", "print", "lookup"):
                want = [i, "absolute"] if i % 3 else ["X,%d" % i, "complex"]
                t.update("A", *want)
            if what == "print":
                printed(t, dict.fromkeys(names))
            elif what == "lookup":
                t.lookup("ZZ")
                t.lookup("K")
            elif what == "readd":
                t.add("A", "z", i, None if i % 2 else i, "absolute")
                t.add("K", "z", i, i)
            elif what == "unknown":
                t.update("ZZ%d" % (i % 7), i, "absolute")
            elif what in ("prune", "resolve"):
                x = "U%d" % i
                names.append(x)
                t.add(x, "h", i)
                expect("undefined", list(t.undefines), undefs + [x])
                t.update(x, i, "absolute" if i % 2 else "complex")
                t.pruneUndefines() if what == "prune" else t.resolve()
                expect("value of %s" % x, t.lookup(x).value, i)
            elif what == "idle":
                t.pruneUndefines()
                t.resolve()
                t.resolve(1 + i % 4)
            expect("undefined, time %d" % (i + 1), list(t.undefines), undefs)
            expect("counts, time %d" % (i + 1),
                   (t.getNumSymbols(), t.getNumUndefs()), (len(names), 1))
            a, k = t.lookup("A"), t.lookup("K")
            expect("A, time %d" % (i + 1),
                   [a.value, a.isAbsolute(), a.isComplex(), a.file, a.line,
                    a.segment, a.subsegment, a.isValid()],
                   [want[0], want[1] == "absolute", want[1] != "absolute",
                    "f", 1, "S", "1", True])
            expect("K, time %d" % (i + 1), [k.value, k.file, k.line],
                   [None, "g", 2])
            expect("ZZ", t.lookup("ZZ0"), None)

    def crowd(arg):
        """Many tables alive: each keeps its own symbols."""
        n, = arg
        ts = []
        for i in range(n):
            t = st.SymbolTable()
            expect("new table", (t.getNumSymbols(), list(t.undefines)),
                   (0, []))
            for k in range(1 + i % 5):
                t.add("N%d" % k, "f%d" % i, i, i + k if k % 2 else None,
                      "absolute", "S%d" % i, "1")
            ts.append(t)
        for r in range(3):
            for i, t in enumerate(ts):
                names = ["N%d" % k for k in range(1 + i % 5)]
                expect("symbols of table %d" % i, sorted(t.symbols), names)
                expect("undefined of table %d" % i, list(t.undefines),
                       names[::2] if r == 0 else names[2::2] if r == 1 else
                       [])
                for k, x in enumerate(names):
                    e = t.lookup(x)
                    v = i + k if k % 2 else -1 if k == 0 and r else \
                        -2 if r == 2 else None
                    expect("%s of table %d" % (x, i),
                           (e.value, e.file, e.line, e.segment),
                           (v, "f%d" % i, i, "S%d" % i))
                if r == 0:
                    t.update("N0", -1, "absolute")
                else:
                    for x in names[2::2]:
                        t.update(x, -2, "complex")
                t.pruneUndefines() if r == 0 else t.resolve()

    ctx.kind("crowd", crowd)
    ctx.kind("again", again)
    ctx.kind("refer", refer)
    ctx.kind("hist", hist)
    ctx.kind("refs", refs)
    ctx.kind("subset", subset)
    ctx.kind("values", values)
    ctx.kind("lookups", lookups)

    def run():
        s = explore(ctx, "hist", None, make, ops(), step, ((), ()),
                    max_depth=None if ctx.wide else 4,
                    max_states=130000 if ctx.deep else 60000)
        ctx.section("state search", states=s[0], depth=s[1], closed=s[2])
        ctx.exhaustive = True
        for n in range(1, 12 if ctx.deep else 9):
            for bits in range(1 << n):
                for how in ("prune", None, 1, 2):
                    for rev in (0, 1):
                        ctx.case("subset", [n, bits, how, rev])
                        ctx.count(states=3, transitions=3 + n, traces=1)
        for n in (12, 25, 60, 110, 300, 1030, 2100):
            for bits in (0, 1, 0b110110110110, (1 << n) - 1, 1 << (n - 1)):
                ctx.case("subset", [n, bits, "prune", 0])
                ctx.case("subset", [n, bits, None, 1])
                ctx.count(states=6, transitions=6 + n, traces=2)
        for k in (3, 300, 3000):
            ctx.case("crowd", [k])
            ctx.count(states=k, transitions=15 * k, traces=1)
        for what in ("update", "print", "lookup", "readd", "unknown",
                     "prune", "resolve", "idle"):
            n = 20000 if ctx.deep else 2200
            if what in ("prune", "resolve", "print"):
                n //= 2
            ctx.case("again", [what, n])
            ctx.count(states=n, transitions=4 * n, traces=1)
        vals = [None, "", 0, False, True, "0", 1, -1, " ", 0.0, "A", "None",
                2 ** 48, [], [1]]
        for a, b, c in itertools.product(vals, vals, vals):
            if c is None:
                continue        # never back to undefined
            for kinds in (("absolute",) * 3, ("complex",) * 3,
                          ("complex", "absolute", None)):
                for how in (0, 1):
                    ctx.case("values", [a, b, c, kinds, how])
                    ctx.count(states=4, transitions=6, traces=1)
        for k in (1, 2, 3):
            names = list("PQR"[:k])
            for vs in itertools.product(names + ["P,1", None], repeat=k):
                for order in itertools.product(("add", "update", "late",
                                                "never"), repeat=k):
                    if any(v is None and o in ("update", "late")
                           for v, o in zip(vs, order)):
                        continue
                    for how in (0, 1):
                        ctx.case("refer", [names, vs, order, how])
                        ctx.count(states=k, transitions=3 * k, traces=1)
        pool = ["A", "AB", "a", "A B", "A,B", " A", "A-1", "LONGNAME12", "0",
                "B"]
        for k in (1, 2, 3):
            for t in itertools.permutations(pool, k):
                ctx.case("lookups", list(t))
                ctx.count(states=k, transitions=12 * k * k, traces=1)
        for n in range(5):
            ctx.case("refs", list(range(n)))
            ctx.count(states=1, transitions=n, traces=1)
        ctx.sample({"history": [("add", "A", None, None), ("upd", "A", 7,
                                                           "absolute"),
                                ("prune",)]})
        ctx.bounds = {"names": NAMES, "ops": len(ops()), "depth": s[1],
                      "closed": s[2]}
        ctx.assumptions = ["A definition is updated only to a value, never "
                           "back to undefined."]
    return run
