"""C13-C15: punched cards and decks against a column-arithmetic model."""
import itertools
import os

from mc.core import expect, fail, ok, rejects, import_repo, outcome
from checks.isa import TABLE, PSEUDO

STARTS = [1, 2, 8, 9, 20, 33, 47, 61, 76, 81]
WIDTH = 120
FIELDNAMES = ["column1", "lognum", "column8", "label", "operation",
              "operand1", "operand2", "operand3", "misc", "remarks"]

# characters that are neither printable ASCII nor a line end
ODDCHARS = [chr(n) for n in list(range(32)) + list(range(127, 256)) if
            n not in (10, 13)] + list("\u0130\u0178\u2002\u2028\u2029\u3000"
                                     "\ufeff\ufb01\u2588\U0001f4a9")


def split(line, starts=STARTS, width=WIDTH):
    """Fields of a card: field k holds the columns from its start up to the
    next start (the last one up to the card width)."""
    ends = starts[1:] + [width + 1]
    cols = dict(enumerate(line[:max(ends)], 1))
    return ["".join(cols[c] for c in range(s, e) if c in cols)
            for s, e in zip(starts, ends)]


def strip(f):
    f = f.strip()
    return f if f else None


def put(**at):
    """Compose a 120-column line from {column: text}."""
    buf = []
    for col, text in sorted((int(k[1:]), v) for k, v in at.items()):
        while len(buf) < col - 1:
            buf.append(" ")
        buf[col - 1:col - 1 + len(text)] = list(text)
    return "".join(buf)


class Impl:
    def __init__(self):
        self.pc = import_repo("h800.punchcard")
        self.ac = import_repo("h800.arguscard")


def same_raw(card, line, starts=STARTS, width=WIDTH, names=None, linenum=0):
    text = line.replace("\n", "")
    want = split(text, starts, width)
    expect("line", card.line, text)
    expect("card text", str(card), text)
    expect("fields", list(card.fields), want)
    expect("stripped fields", list(card.strippedFields),
           [strip(f) for f in want])
    names = names or FIELDNAMES
    for n, f in zip(names, want):
        expect("record %s" % n, card.record[n], strip(f))
    if linenum:
        expect("record line number", card.record["linenum"], linenum)
    ends = starts[1:] + [width + 1]
    expect("layout", [tuple(x) for x in card.layout],
           [(s, e - s) for s, e in zip(starts, ends)])
    if card.isComment:
        fail("not a comment: %r", line)
    expect("comment", card.comment, None)


def naming(how, n):
    """Names of n fields, of several styles."""
    if how == 0:
        return ["f%d" % i for i in range(n)]
    if how == 1:        # ever shorter
        return ["x" * (n - i) for i in range(n)]
    if how == 2:        # the standard names, in reverse, then others
        return (FIELDNAMES[::-1] + ["z%d" % i for i in range(n)])[:n]
    if how == 3:        # descending in the alphabet, mixed case and signs
        return ["%s %d" % (chr(90 - i % 26) if i % 2 else
                           chr(122 - i % 26), n - i) for i in range(n)]
    if how == 4:
        return list(range(n, 0, -1))
    return ["line", "fields", "", " ", "linenumber", "comment", "width",
            "column1 ", "COLUMN1", "_record", "lognum", "label"][:n] + \
        ["column%d" % i for i in range(12, n)]


def columns(ctx):
    impl = Impl()

    def default(arg):
        line = arg
        for C in (impl.pc.PunchCard,):
            c = ok("card", C, line)
            same_raw(c, line)
            c2 = ok("card", C, line + "\n", filename="f", linenum=7)
            same_raw(c2, line, linenum=7)
            expect("filename", c2.filename, "f")
            expect("line number", c2.linenum, 7)
            c3 = ok("card", C, line, verbose=True)
            same_raw(c3, line)
            expect("filename", c3.filename, None)
            c4 = ok("card", C, line + "\n", 120, list(STARTS), FIELDNAMES,
                    "g h", 1, True)
            same_raw(c4, line, linenum=1)
            expect("filename", c4.filename, "g h")
            same_raw(c, line)

    def custom(arg):
        line, starts, width = arg[:3]
        names = naming(arg[3] if len(arg) > 3 else 0, len(starts))
        c = ok("card", impl.pc.PunchCard, line, width=width, fields=starts,
               fieldnames=names)
        same_raw(c, line, starts, width, names)
        if width < 5 or width > 100:
            t = ok("card", impl.pc.PunchCard, line + "\n", width,
                   tuple(starts), tuple(names), verbose=True)
            same_raw(t, line, starts, width, names)

    def comment(arg):
        for t in ("", "\n"):
            c = ok("comment card", impl.pc.PunchCard, arg + t)
            expect("is comment", bool(c.isComment), True)
            expect("comment", c.comment, arg)
            expect("line", c.line, arg)
            a = ok("comment card", impl.ac.Card, arg + t)
            expect("is comment", bool(a.isComment), True)
            for n in ("column1", "lognum", "column8", "label", "operation",
                      "operand1", "operand2", "operand3", "remarks",
                      "instruction"):
                if getattr(a, n):
                    fail("comment card has a %s: %r", n, getattr(a, n))

    def deck(arg):
        lines, starts, width = arg
        d = ok("deck", impl.pc.Deck, lines=lines, width=width, fields=starts)
        expect("cards", len(d.cards), len(lines))
        for c, ln in zip(d.cards, lines):
            want = split(ln, starts, width)
            expect("fields", list(c.fields), want)
        expect("deck fields", [list(f) for f in d.fields],
               [split(ln, starts, width) for ln in lines])

    def filedeck(arg):
        """A deck file with its own layout: the cards of the files it
        includes are split at the same columns."""
        lines, starts, width = arg
        os.chdir(ctx.scratch())
        for name, text in (("m.argus", lines + ["$ i.argus"] + lines[:1]),
                           ("i.argus", lines[::-1] + ["$ j.argus"]),
                           ("j.argus", lines[:2])):
            with open(name, "w") as f:
                f.write("".join(x + "\n" for x in text))
        want = lines + lines[::-1] + lines[:2] + lines[:1]
        want = [x for x in want if not x.startswith("#")]
        for D, C in ((impl.pc.Deck, None), (impl.pc.Deck, impl.pc.PunchCard)):
            d = ok("deck", D, file="m.argus", width=width, fields=starts,
                   **({"cardclass": C} if C else {}))
            expect("cards", len(d.cards), len(want))
            for c, ln in zip(d.cards, want):
                expect("card", type(c).__name__, "PunchCard")
                same_raw(c, ln, starts, width, FIELDNAMES[:len(starts)],
                         linenum=c.linenum)
            expect("deck fields", [list(f) for f in d.fields],
                   [split(ln, starts, width) for ln in want])
            expect("deck stripped fields",
                   [list(f) for f in d.strippedFields],
                   [[strip(f) for f in split(ln, starts, width)]
                    for ln in want])

    def mixed(arg):
        """Cards of different layouts alive together: none changes another,
        nor the layouts they were made from."""
        made = []
        for line, lay in arg:
            if lay is None:
                c = ok("card", impl.pc.PunchCard, line)
                made.append((c, line, STARTS, WIDTH, None))
            elif lay == "argus":
                c = ok("card", impl.ac.Card, line)
                made.append((c, line, None, None, None))
            else:
                starts, width = list(lay[0]), lay[1]
                names = ["n%d" % i for i in range(len(starts))]
                c = ok("card", impl.pc.PunchCard, line, width, starts, names)
                expect("given layout", starts, list(lay[0]))
                made.append((c, line, starts, width, names))
            for c, line2, starts, width, names in made:
                if starts is None:
                    expect("fields", list(c.fields), split(line2))
                    same_card(c, line2)
                else:
                    same_raw(c, line2, starts, width, names)

    for k, f in (("default", default), ("custom", custom),
                 ("comment", comment), ("deck", deck), ("mixed", mixed),
                 ("filedeck", filedeck)):
        ctx.kind(k, f)

    ruler = "".join(chr(0x21 + (i * 7) % 94) for i in range(126)) \
        .replace("#", "A")

    def run():
        lines = [ruler[:n] for n in range(0, 127)]
        lines += [" " * (c - 1) + "X" for c in range(1, 127)]
        lines += [" " * (c - 1) + "X" + " " * (120 - c)
                  for c in range(1, 121)]
        lines += ["A" * (c - 1) + " " + "A" * (120 - c)
                  for c in range(1, 121)]
        for c1 in range(1, 121):
            for c2 in range(c1 + 1, 121):
                if ctx.wide or c2 - c1 <= 2 or \
                        any(abs(c1 - s) < 2 for s in STARTS) and \
                        any(abs(c2 - s) < 2 for s in STARTS):
                    lines.append(" " * (c1 - 1) + "X" + " " * (c2 - c1 - 1) +
                                 "Y")
        for bits in range(1 << 10):     # every subset of filled fields
            at = {"c%d" % s: chr(65 + i) for i, s in enumerate(STARTS)
                  if bits >> i & 1}
            lines.append(put(**at))
        # characters that are not letters or blanks, at and around every
        # field boundary; # and $ mean nothing after column 1
        for ch in ODDCHARS + [chr(n) for n in range(33, 127)]:
            for s in STARTS:
                for col in {max(1, s - 1), s, min(120, s + 1)}:
                    if col == 1 and ch == "#":
                        continue
                    lines.append(" " * (col - 1) + ch)
                    lines.append("A" * (col - 1) + ch + "B" * (120 - col))
                    lines.append(" " * (col - 1) + ch + " X " + ch + " ")
            lines.append(" " + ch * 119)
        for ln in (1, 7, 119, 120, 121, 130, 200, 500, 1000, 4095, 4096,
                   4097, 65536, 100001):
            lines += [" " * ln, "Z" * ln, "\t" * ln, "Z" + " " * (ln - 1)]
        for ln in lines:
            if ln.startswith("#"):
                continue
            ctx.case("default", ln)
            ctx.count(states=1, transitions=3, traces=1)
        # every layout of small cards x every small line
        n = 0
        for width in range(1, 8 if ctx.deep else 6):
            for r in range(1, width + 1):
                for starts in itertools.combinations(range(1, width + 1), r):
                    for ln in range(0, width + 3):
                        for t in itertools.product("A ", repeat=ln):
                            ctx.case("custom", ["".join(t), list(starts),
                                                width])
                            n += 1
        # ... also with fields of no columns
        for width in range(1, 6):
            for r in range(2, 5):
                for starts in itertools.combinations_with_replacement(
                        range(1, width + (5 if r < 4 else 2)), r):
                    for ln in ("", "A", "ABCDEFGH", " B D F", "  C", "AB  E"):
                        ctx.case("custom", [ln, list(starts), width])
                        n += 1
        ctx.count(states=n, transitions=n, traces=n)
        # every two- and three-field layout of the standard card
        for s in range(2, 121):
            ctx.case("custom", [ruler[:120], [1, s], 120])
            ctx.case("custom", [ruler, [1, s], s + 3])
            ctx.case("deck", [[ruler[:120], "AB", ""], [1, s], 120])
            ctx.case("filedeck", [[ruler[:120], "AB", "", " X" * s],
                                  [1, s], 120])
            ctx.case("filedeck", [["AB", ruler, " " * s + "Q"],
                                  [2, s + 2, s + 9], s + 12])
            ctx.count(states=5, transitions=13, traces=5)
        for width in range(1, 6):
            for r in range(1, width + 1):
                for starts in itertools.combinations(range(1, width + 1), r):
                    ctx.case("filedeck", [["ABCDEFG", "A", " B C D"],
                                          list(starts), width])
                    ctx.count(states=1, transitions=2, traces=1)
        for width in (121, 127, 128, 129, 200, 255, 256, 257, 300,
                      512, 513, 600):
            for st in ([1], [1, 100], [1, 121], [1, 20, 120, 121, 122],
                       [2, 127, 128, 129], [1, 256], [1, 257], [1, 258, 300],
                       [1, 40, 296], list(range(1, width + 1, 7)),
                       list(range(1, width + 1)), [width - 1, width]):
                st = [x for x in st if x <= width]
                for ln in (ruler * 3, (ruler * 3)[:width], ruler[:119],
                           " " * width + "X", ""):
                    ctx.case("custom", [ln, st, width])
                    ctx.count(states=1, transitions=2, traces=1)
        # names of the fields, in layouts of up to 30 of them
        for k in list(range(1, 31)) + [100]:
            for how in range(1, 6):
                for st in (list(range(1, k + 1)), list(range(2, 3 * k, 3)),
                           [1 + i * i // 2 for i in range(k)]):
                    for ln in (ruler, ruler * 40, " A" * k, "A B  C"):
                        ctx.case("custom", [ln, st, st[-1] + 2, how])
                        ctx.count(states=1, transitions=1, traces=1)
        lays = [None, "argus", [[1, 3, 9], 12], [[1], 80], [[2, 50], 60]]
        mls = [ruler[:120], "AB", " X" * 60]
        for m in itertools.product([(ln, la) for la in lays
                                    for ln in mls[:3 if ctx.deep else 2]],
                                   repeat=3):
            ctx.case("mixed", [list(x) for x in m])
            ctx.count(states=3, transitions=3, traces=1)
        for s in ("#", "# x", "#\tx  ", "#" * 121, "##", "#$ a", "#" * 120, "#1234567890", "# Page 1",
                  "#      @LOG"):
            ctx.case("comment", s)
            ctx.count(states=1, transitions=4, traces=1)
        ctx.sample({"line": lines[300]})
        ctx.bounds = {"single marks": "every column 1..126",
                      "line lengths": "0..126",
                      "custom layouts": "all up to %d columns, all lines "
                      "over {A, blank}" % (7 if ctx.deep else 5)}
        ctx.assumptions = ["Lines contain no carriage return or newline "
                           "other than the terminating newline."]
    return run


# ---------------------------------------------------------------------------

ACCESS = {  # accessor -> (first column, last column)
    "column1": (1, 1), "lognum": (2, 7), "column8": (8, 8),
    "label": (9, 19), "location": (9, 19), "operation": (20, 32),
    "operand1": (33, 46), "addressa": (33, 46), "operand2": (47, 60),
    "addressb": (47, 60), "operand3": (61, 75), "addressc": (61, 75),
    "sequence": (76, 80), "remarks": (81, 120)}
FREE = ("label", "location", "operation", "operand1", "addressa", "operand2",
        "addressb", "operand3", "addressc", "sequence")


def card_model(line):
    g = {}
    for n, (s, e) in ACCESS.items():
        g[n] = strip(line[s - 1:e])
    if g["column1"] in ("P", "R", "L"):
        for n in FREE:
            g[n] = None
        g["remarks"] = strip(line[8:])
    op = g["operation"]
    g["instruction"] = op.split(",")[0].strip() or None if op else None
    return g


def same_card(c, line, label=""):
    want = card_model(line)
    for n, w in want.items():
        got = getattr(c, n)
        if got == "":
            got = None
        if got != w:
            fail("%s%s of %r: got %r, expected %r", label, n, line, got, w)


def argus_cards(ctx):
    impl = Impl()

    def card(arg):
        line, via = arg
        if via == "card":
            c = ok("card", impl.ac.Card, line)
        elif via == "nl":
            c = ok("card", impl.ac.Card, line + "\n")
        elif via == "verbose":
            c = ok("card", impl.ac.Card, line, verbose=True, filename="F",
                   linenum=3)
            expect("filename", c.filename, "F")
            expect("line number", c.linenum, 3)
            expect("record line number", c.record["linenum"], 3)
            same_card(c, line, "verbose: ")
            expect("fields", list(c.fields), split(line))
            expect("line", c.line, line)
            c = ok("card", impl.ac.Card, line, WIDTH, list(STARTS),
                   FIELDNAMES, "G", 4, True)
            same_card(c, line, "verbose: ")
            c = ok("card", impl.ac.Card, line, WIDTH, list(STARTS),
                   FIELDNAMES, "G", 4, False)
            expect("filename", c.filename, "G")
            expect("line number", c.linenum, 4)
            for v in (False, True):
                d = ok("deck", impl.ac.Deck, [line], None, WIDTH,
                       list(STARTS), impl.ac.Card, v)
                if line.startswith("#"):
                    expect("cards", len(d.cards), 0)
                else:
                    same_card(d.cards[0], line)
        else:
            d = ok("deck", impl.ac.Deck, lines=[line])
            expect("cards", len(d.cards), 1)
            c = d.cards[0]
        same_card(c, line)
        # the raw split is unaffected by the card's meaning
        expect("fields", list(c.fields), split(line))
        expect("stripped fields", list(c.strippedFields),
               [strip(f) for f in split(line)])
        expect("line", c.line, line)
        same_card(c, line, "again: ")

    def pair(arg):
        a, b = arg
        d = ok("deck", impl.ac.Deck, lines=[a, b, a])
        for c, ln in zip(d.cards, (a, b, a)):
            same_card(c, ln)

    ctx.kind("card", card)
    ctx.kind("pair", pair)

    SEGS = [(1, "S"), (2, "001230"), (8, "T"), (9, "LABEL"), (20, "BA,M1"),
            (33, "A,1"), (47, "B"), (61, "C+2"), (76, "12345"),
            (81, "SOME REMARK")]
    OPS = ["BA", "BA,M1", "BA, M1", "BA ,M1", "BA,", ",X", "A,B,C", ",",
           "SETLOC,1C", "SETLOC", "TX,MASKNAME12", "B A", "B A,C D", "  BA",
           " BA, X", "ALF", "=BA", "BA.M", "BA;M"]

    def run():
        lines = []
        firsts = " PRLS*ABCDEFGHIJKMNOQTUVWXYZ0123456789$-+.,"
        for ch in firsts:
            for bits in range(1 << 9):
                if not ctx.wide and ch not in " PRLS*" and \
                        bin(bits).count("1") not in (0, 1, 8, 9):
                    continue
                at = {"c%d" % s: t for i, (s, t) in enumerate(SEGS[1:])
                      if bits >> i & 1}
                at["c1"] = ch
                lines.append(put(**at))
        for ch in " PRL":
            for op in OPS:
                for lab in ("", "TAG", "F,TAG"):
                    lines.append(put(c1=ch, c9=lab, c20=op, c33="X"))
                    lines.append(put(c1=ch, c2="000010", c8="*", c9=lab,
                                     c20=op, c81="REM"))
        for ch in " PRL":
            for col in range(2, 121):
                lines.append(ch + " " * (col - 2) + "Z")
                lines.append(ch + " " * (col - 2) + "Z" * (121 - col))
                lines.append(ch + "Z" * (col - 1))
                for col2 in range(col + 1, 121):
                    if ctx.wide or col2 - col in (1, 2, 13):
                        lines.append(ch + " " * (col - 2) + "Y" +
                                     " " * (col2 - col - 1) + "Z")
        for ch in " PRLprlS":
            for n in list(range(0, 126)) + [130, 200, 255, 256, 257, 1000,
                                            4097, 65537, 100001]:
                lines.append((ch + "123456T" + "ABCDEFGHIJKLM, " *
                              (14 + n // 15))[:n])
                lines.append((ch + " " * max(130, n))[:n])
                lines.append((ch + " " * max(130, n))[:n] + "Z")
            for x in ODDCHARS + list(",*#$="):
                for col in (2, 7, 8, 9, 19, 20, 32, 33, 46, 47, 60, 61, 75,
                            76, 80, 81, 120):
                    lines.append(ch + " " * (col - 2) + x)
                    lines.append((ch + "A" * (col - 2) + x + "B" * 120)[:120])
        # one or two fields holding something that means something elsewhere
        words = ["*", "L", "P", "R", "S", "#", "$", ",", "-", "0", "=", "@",
                 "TAS", "EQUALS", "PR", "X,Y", "END", "SETLOC,1", "*,", "**"]
        cols = [(s, WIDTH + 1 if i == 9 else STARTS[i + 1])
                for i, s in enumerate(STARTS)]
        full = {s: t for s, t in SEGS}
        for (s1, e1), x in itertools.product(cols, words):
            for base in ({}, {20: "BA"}, {20: "BA,M1"}, full,
                         {1: "P", 20: "BA"}, {1: "L", 9: "LOG"}):
                at = dict(base)
                at[s1] = x[:e1 - s1]
                lines.append(put(**{"c%d" % k: v for k, v in at.items()}))
                at[s1] = x[:e1 - s1].rjust(e1 - s1 if s1 < 81 else 40)
                lines.append(put(**{"c%d" % k: v for k, v in at.items()}))
        # every printable character before, in, after and instead of a word
        for (s1, e1), x in itertools.product(cols, map(chr, range(33, 127))):
            for t in (x, "BA" + x, x + "BA", "B" + x + "A", "BA,M" + x,
                      x + "," + x, "BA" + x + ",M1", x + x):
                for base in ({}, {20: "TX,M2"}, {1: "R"}, {1: "S", 9: "Q"}):
                    if s1 not in base:
                        at = dict(base)
                        at[s1] = t[:e1 - s1]
                        lines.append(put(**{"c%d" % k: v
                                            for k, v in at.items()}))
        # any other character likewise, column 1 included
        for (s1, e1), x in itertools.product(cols, ODDCHARS):
            for t in (x, "BA" + x, x + "BA", "B" + x + "A", x * 20):
                for base in ({}, {20: "TX,M2"}, full, {1: "R", 9: "Q"}):
                    at = dict(base)
                    at[s1] = t[:e1 - s1]
                    lines.append(put(**{"c%d" % k: v for k, v in at.items()}))
        # the same word in several fields
        for t in ("BA", "BA,M1", "X", "TAS", "SETLOC,1"):
            for bits in range(1 << 9):
                lines.append(put(**{"c%d" % s: t[:e - s] for i, (s, e) in
                                    enumerate(cols[1:]) if bits >> i & 1}))
        for m in sorted(set(TABLE) | set(PSEUDO)):
            for t in (m, m + ",M1", m + ",", m + ", X", m + ".1", m + "A"):
                lines.append(put(c9="TAG", c20=t, c33="X"))
                lines.append(put(c8="*", c20=t, c76="*"))
        for ((s1, e1), x), ((s2, e2), y) in itertools.combinations(
                list(itertools.product(cols, words)), 2):
            if s1 != s2:
                at = {20: "BA,M1"} if 20 not in (s1, s2) else {}
                at[s1], at[s2] = x[:e1 - s1], y[:e2 - s2]
                lines.append(put(**{"c%d" % k: v for k, v in at.items()}))
        lines = [ln for ln in dict.fromkeys(lines) if ln[:1] != "#"]
        for ln in lines:
            for via in ("card", "nl", "deck", "verbose"):
                ctx.case("card", [ln, via])
            ctx.count(states=1, transitions=4, traces=4)
        reps = [put(c1=ch, c9="TAG", c20=op, c81="R") for ch in " PRLS"
                for op in ("BA", "BA,M", "")]
        reps += [put(c2="000010", c8="*", c33="A", c47="B", c61="C",
                     c76="12345"), "", "L", "R" + "x" * 119]
        for a in reps:
            for b in reps:
                ctx.case("pair", [a, b])
                ctx.count(transitions=3, traces=1)
        ctx.sample({"line": lines[1234]})
        ctx.bounds = {"column 1": firsts, "field subsets": "all 512 for "
                      "blank/P/R/L/S/*", "distinct lines": len(lines)}
        ctx.assumptions = ["An absent item may read as blank text or as "
                           "nothing."]
    return run


# ---------------------------------------------------------------------------

LINE = {
    "a": put(c2="000010", c9="ALPHA", c20="BA,M1", c33="X"),
    "b": put(c2="000020", c20="TX", c33="Y", c81="REMARK $ # HERE"),
    "r": "R      remark text in column eight on",
    "c": "# a comment",
    "d": "#",
    "e": "",
    "L": put(c1="L", c2="0001", c8="@", c9="FIRST LOG"),
    "M": put(c1="L", c9="SECOND LOG"),
    "i": "$ inc1.argus",
    "j": "$inc2.argus  trailing words",
    "s": " $ inc1.argus",
    "h": " # not a comment",
    "w": "    ",
    "t": "\tTABS\tAND \u00e9   ",
    "z": "Z" * 150,
    "k": "$ sub/inc3.argus",
    "f": "R      FORM\x0cFEED \x0b AND \x1c\x85\u2028 SUCH",
    "g": "\x0c" + put(c2="00030", c20="TX"),
    "N": put(c1="L", c8="#", c9="  BLANKS AROUND") + "   ",
    "O": put(c1="L", c8="@", c9="".join(chr(65 + i % 26)
                                        for i in range(72))),
    "P": put(c1="L", c8="X", c9="NAME", c83="BEYOND"),
    "Q": "L",
    "R": put(c1="P", c8="*", c9="L SECTION"),
    "S": put(c1="L", c8="*", c9="STARRED", c61="FAR"),
    "T": put(c1="L", c8="+", c9="\t\x0bTABS \t AROUND\t \xa0"),
}
INC1 = ["", "a", "ca", "j", "aja", "L"]
INC2 = ["b", "cr", "M"]


NAMES = ["noext", "a.b.c", "part#2.argus", "#x", "a$b.argus", "$x", "UP.ARG",
         "x,y.argus", "%s.argus", "{0}.argus", "x~", "(a).argus", "[a].argus",
         "a&b", "x'y.argus", "v1.0", ".hidden", "sub.dir/m.argus",
         "sub/noext", "a=b", "\u00e9.argus", "n" * 90 + ".argus", "a;b",
         "x\\y", "a:b", "@x", "a+b.c-d", "!x", "1", "1.2", "sub/../up.argus",
         ".//dot.argus", "*.argus", "?", "a\"b",
         "~", "~root", "$HOME", "${HOME}", "%20", "a%20b", "$MC_ONE",
         "None", "0"]
MORE = NAMES + ["~u/x.argus", "%HOME%", "$", "$$", "-", "-x", "--", "-v",
                "..x", "x.", "sub/~", "sub/$HOME", "file:x", "con",
                "nul.argus", "x.argus.bak", "inc1.ARGUS", "INC1.argus",
                "sub/sub/x", "<x>", "|x", "`x`", "^x"]


def decks(ctx):
    impl = Impl()
    root = ctx.scratch()
    os.chdir(root)
    os.environ["MC_ONE"] = os.environ["HOME"] = "inc1.argus"

    def text(code, nl):
        s = "\n".join(LINE[ch] for ch in code)
        return s + ("\n" if nl and code else "")

    def write(name, code, nl=True):
        with open(os.path.join(root, name), "w",
                  newline="\r\n" if nl == "crlf" else None) as f:
            f.write(text(code, nl))

    def flatten(name, codes, nl=True):
        """[(file, line number, text)] of the deck read from `name`."""
        out = []
        code = codes[name]
        n = len(code)
        if n and not nl and LINE[code[-1]] == "":
            n -= 1              # a final empty line without newline is none
        for i, ch in enumerate(code[:n], 1):
            if ch in "cd":
                continue
            if ch == "i":
                out += flatten("inc1.argus", codes)
            elif ch == "j":
                out += flatten("inc2.argus", codes)
            elif ch == "k":
                out += flatten("sub/inc3.argus", codes)
            else:
                out.append((name, i, LINE[ch]))
        return out

    def verify(d, want, label, argus):
        expect(label + " cards", len(d.cards), len(want))
        for c, (fn, ln, t) in zip(d.cards, want):
            ctx._tick += 1
            expect(label + " text", c.line, t)
            expect(label + " line number of %r" % t, c.linenum, ln)
            expect(label + " file of %r" % t, c.filename, fn)
            expect(label + " fields", list(c.fields), split(t))
            if argus:
                same_card(c, t)
        expect(label + " deck text", str(d), "\n".join(t for _, _, t in want))
        expect(label + " fields", [list(f) for f in d.fields],
               [split(t) for _, _, t in want])
        expect(label + " stripped", [list(f) for f in d.strippedFields],
               [[strip(f) for f in split(t)] for _, _, t in want])
        expect(label + " records", len(d.records), len(want))
        for rec, (fn, ln, t) in zip(d.records, want):
            expect(label + " record", rec["lognum"], strip(t[1:7]))
            expect(label + " record line", rec["linenum"], ln)
        if argus:
            log = next((t for _, _, t in want if t.startswith("L")), None)
            expect(label + " log section", d.log_section,
                   None if log is None else log[8:80].strip())
            expect(label + " log section column 8", d.log_section_col8,
                   None if log is None else strip(log[7:8]))

    def filedeck(arg):
        code, i1, i2, nl, argus, verbose = arg[:6]
        inc_nl = arg[6] if len(arg) > 6 else True
        codes = {"main.argus": code, "inc1.argus": i1, "inc2.argus": i2}
        write("main.argus", code, nl)
        inl = inc_nl if LINE["e"] not in [LINE[x[-1]] for x in (i1, i2)
                                          if x] else True
        write("inc1.argus", i1, inl)
        write("inc2.argus", i2, inl)
        if "k" in code:
            os.makedirs(os.path.join(root, "sub"), exist_ok=True)
            codes["sub/inc3.argus"] = "bj"
            write("sub/inc3.argus", "bj")
        mod = impl.ac if argus else impl.pc
        d = ok("deck", mod.Deck, file="main.argus", verbose=verbose)
        want = flatten("main.argus", codes, nl)
        verify(d, want, "file deck", argus)
        expect("deck lines", [x for x in d.lines], [t for _, _, t in want])
        if len(code) < 4:
            card = impl.ac.Card if argus else impl.pc.PunchCard
            d = ok("deck", mod.Deck, None, "main.argus", WIDTH, list(STARTS),
                   card, verbose)
            verify(d, want, "file deck of positional arguments", argus)

    def crowd(arg):
        """`n` decks alive together, each keeping its own cards."""
        n, argus = arg
        mod = impl.ac if argus else impl.pc
        codes = {"inc1.argus": "aj", "inc2.argus": "br"}
        for name, code in codes.items():
            write(name, code)
        units = ("a", "ib", "Lc", "jaj", "M", "rab", "zi", "")
        made = []
        for i in range(n):
            ctx._tick += 1
            unit = units[i % len(units)] + "ab"[i // len(units) % 2]
            if i % 3:
                name = "crowd%d.argus" % (i % 40)
                codes[name] = unit
                write(name, unit)
                made.append((ok("deck", mod.Deck, file=name),
                             flatten(name, codes)))
            else:
                unit = unit.replace("i", "r").replace("j", "a")
                made.append((ok("deck", mod.Deck,
                                lines=[LINE[ch] + "\n" for ch in unit]),
                             [(None, k, LINE[ch])
                              for k, ch in enumerate(unit, 1)
                              if ch not in "cd"]))
        for i, (d, want) in enumerate(made):
            verify(d, want, "deck %d of %d" % (i, n), argus)
            expect("lines", [x.rstrip("\n") for x in d.lines if
                             not x.startswith("#")], [t for _, _, t in want])

    def linedeck(arg):
        code, nl, argus = arg
        mod = impl.ac if argus else impl.pc
        lines = [LINE[ch] + ("\n" if nl else "") for ch in code]
        given = list(lines)
        d = ok("deck", mod.Deck, lines=given)
        expect("the lines given", given, lines)
        want = [(None, i, LINE[ch]) for i, ch in enumerate(code, 1)
                if ch not in "cd"]
        verify(d, want, "line deck", argus)
        d2 = ok("deck", mod.Deck, list(lines))
        verify(d2, want, "second deck", argus)
        d3 = ok("deck", mod.Deck, tuple(lines), verbose=nl)
        verify(d3, want, "deck of a tuple", argus)
        # the constructor's arguments in the order it declares them
        card = impl.ac.Card if argus else impl.pc.PunchCard
        d4 = ok("deck", mod.Deck, list(lines), None, WIDTH, list(STARTS),
                card, nl)
        verify(d4, want, "deck of positional arguments", argus)
        verify(d, want, "first deck again", argus)

    def missing(arg):
        code, gone, argus = arg
        write("main.argus", code)
        write("inc1.argus", "a")
        write("inc2.argus", "b")
        os.remove(os.path.join(root, gone))
        mod = impl.ac if argus else impl.pc
        reach = {"main.argus"} | ({"inc1.argus"} if "i" in code else set()) \
            | ({"inc2.argus"} if "j" in code else set())
        k, e = outcome(mod.Deck, file="main.argus")
        if gone in reach:
            if k == "ok":
                fail("missing file %s went unnoticed", gone)
            if not isinstance(e, SystemExit):
                fail("missing file %s: %s", gone, type(e).__name__)
            if e.code in (0, None) or gone not in str(e.code):
                fail("missing file %s reported as %r", gone, e.code)
        elif k != "ok":
            fail("deck not read: %s(%s)", type(e).__name__, e)

    def nothing(arg):
        mod = impl.ac if arg else impl.pc
        k, e = outcome(mod.Deck)
        if k == "ok" or not isinstance(e, SystemExit) or \
                e.code in (0, None):
            fail("a deck without a source is not refused")
        d = ok("deck of no lines", mod.Deck, lines=[])
        verify(d, [], "empty deck", arg)

    def chain(depth):
        """Includes nested to any depth, the file read twice."""
        for i in range(depth):
            with open(os.path.join(root, "n%d.argus" % i), "w") as f:
                f.write(LINE["a"] + "\n")
                if i + 1 < depth:
                    f.write("$ n%d.argus\n" % (i + 1))
                f.write(LINE["b"] + "\n")
        want = [("n%d.argus" % i, 1, LINE["a"]) for i in range(depth)] + \
            [("n%d.argus" % i, 2 if i + 1 == depth else 3, LINE["b"])
             for i in range(depth - 1, -1, -1)]
        for argus in (0, 1):
            d = ok("deck", (impl.ac if argus else impl.pc).Deck,
                   file="n0.argus")
            verify(d, want, "nested deck", argus)

    def longdeck(arg):
        """`k` copies of a unit, from a file, from lines and by including it
        `k` times."""
        unit, k, how = arg
        codes = {"main.argus": unit * k, "inc1.argus": "a",
                 "inc2.argus": unit if how == "include" else "b",
                 "sub/inc3.argus": "bj"}
        os.makedirs(os.path.join(root, "sub"), exist_ok=True)
        if how == "include":
            codes["main.argus"] = "aj" * k
        for name, code in codes.items():
            write(name, code)
        for argus in (0, 1):
            mod = impl.ac if argus else impl.pc
            if how == "lines":
                d = ok("deck", mod.Deck,
                       lines=[LINE[ch] + "\n" for ch in unit * k])
                want = [(None, i, LINE[ch])
                        for i, ch in enumerate(unit * k, 1) if ch not in "cd"]
            else:
                d = ok("deck", mod.Deck, file="main.argus")
                want = flatten("main.argus", codes)
            verify(d, want, "long deck", argus)
            if k < 20000 and len(unit) < 2000:
                d = ok("deck", mod.Deck, verbose=True, **(
                    {"lines": [LINE[ch] + "\n" for ch in unit * k]}
                    if how == "lines" else {"file": "main.argus"}))
                verify(d, want, "long verbose deck", argus)

    def several(arg):
        """Decks alive together, in this order: each keeps its own cards."""
        names = {"one.argus": "aib", "two.argus": "Mrj", "sub/t.argus": "kz",
                 "inc1.argus": "Lj", "inc2.argus": "bc", "sub/inc3.argus":
                 "wi"}
        os.makedirs(os.path.join(root, "sub"), exist_ok=True)
        for name, code in names.items():
            write(name, code)
        made = []
        for name in arg:
            d = ok("deck", impl.ac.Deck, file=name)
            made.append((name, d))
            for nm, dk in made:
                verify(dk, flatten(nm, names), nm, 1)
        for nm, dk in made:
            # absolute names work too, and are reported as given
            ab = os.path.join(root, nm)
            d = ok("deck", impl.ac.Deck, file=ab)
            verify(d, [(ab if f == nm else f, ln, x) for f, ln, x in
                       flatten(nm, names)], ab, 1)

    TREE = {"x.argus": ["a", "b"], "p/x.argus": ["b"],
            "q/x.argus": ["L", "$ x.argus", "z"],
            "p/y.argus": ["$ p/x.argus", "r"],
            "q/y.argus": ["c", "$ q/x.argus", "$ p/x.argus", "a"],
            "p/q/x.argus": ["w", "$ p/y.argus"],
            "x": ["M"], "x.txt": ["r", "$ x"]}

    def tree(arg):
        """Files of the same name in different directories, included in
        every order: each line comes from the file that was named."""
        for d in ("p/q", "q"):
            os.makedirs(os.path.join(root, d), exist_ok=True)
        files = dict(TREE)
        files["main.argus"] = ["a"] + ["$ " + n for n in arg] + ["b"]

        def lines(codes):
            return [c if c[0] == "$" else LINE[c] for c in codes]
        for name, codes in files.items():
            with open(os.path.join(root, name), "w") as f:
                f.write("".join(x + "\n" for x in lines(codes)))

        def flat(name):
            out = []
            for i, x in enumerate(lines(files[os.path.normpath(name)]), 1):
                if x.startswith("$"):
                    out += flat(x[1:].strip())
                elif not x.startswith("#"):
                    out.append((name, i, x))
            return out
        for argus in (0, 1):
            for name in ["main.argus"] + arg[:1]:
                d = ok("deck", (impl.ac if argus else impl.pc).Deck,
                       file=name)
                verify(d, flat(name), "tree deck %s" % name, argus)

    def named(arg):
        """Files of any name, read and included."""
        name, inner = arg
        os.makedirs(os.path.join(root, "sub.dir"), exist_ok=True)
        for nm in arg:
            os.makedirs(os.path.join(root, os.path.dirname(nm)),
                        exist_ok=True)
        for nm, lines in ((inner, [LINE["b"]]),
                          (name, [LINE["a"], "$ " + inner, LINE["r"]]),
                          ("main.argus", ["$ " + name, LINE["b"], "$" + inner,
                                          "$" + name + " words"])):
            with open(os.path.join(root, nm), "w") as f:
                f.write("".join(x + "\n" for x in lines))
        mid = [(name, 1, LINE["a"]), (inner, 1, LINE["b"]),
               (name, 3, LINE["r"])]
        whole = mid + [("main.argus", 2, LINE["b"]), (inner, 1, LINE["b"])] \
            + mid
        for argus in (0, 1):
            D = (impl.ac if argus else impl.pc).Deck
            verify(ok("deck", D, file=name), mid, "deck %s" % name, argus)
            verify(ok("deck", D, file="main.argus"), whole, "including deck",
                   argus)
        for gone in (inner, name):
            os.remove(os.path.join(root, gone))
            for top in {"main.argus", name} if gone == inner else {name}:
                k, e = outcome(impl.ac.Deck, file=top)
                if k == "ok" or not isinstance(e, SystemExit) or \
                        e.code in (0, None) or gone not in str(e.code):
                    fail("missing file %s: %s %r", gone, k, e)

    def first(arg):
        """Lines that begin with, or hold, any character: only # in column 1
        makes a comment, and only $ an include."""
        ch = chr(arg)
        rows = [ch, ch + "# X", ch * 3, ch + "$ inc1.argus", ch + LINE["a"],
                "A" + ch + "# B", LINE["b"] + ch, " " * 8 + ch + " #",
                "L" + ch * 7 + "LOG " + ch, ch + "L", "R" + ch,
                " " * 18 + ch + "BA" + ch + "," + ch, "#" + ch, "LL" + ch]
        keep = [(i, x) for i, x in enumerate(rows, 1) if x[0] != "#"]
        for argus in (0, 1):
            D = (impl.ac if argus else impl.pc).Deck
            for verbose in (False, True):
                for nl in ("", "\n"):
                    if ch == "$":
                        continue        # see DESIGN.md
                    d = ok("deck", D, lines=[x + nl for x in rows],
                           verbose=verbose)
                    verify(d, [(None, i, x) for i, x in keep], "lines",
                           argus)
                with open(os.path.join(root, "inc1.argus"), "w") as f:
                    f.write("INCLUDED\n")
                with open(os.path.join(root, "first.argus"), "w",
                          encoding="utf-8") as f:
                    f.write("".join(
                        ("$ inc1.argus" if x[0] == "$" else x) + "\n"
                        for x in rows))
                d = ok("deck", D, file="first.argus", verbose=verbose)
                verify(d, [("inc1.argus", 1, "INCLUDED") if x[0] == "$" else
                           ("first.argus", i, x) for i, x in keep],
                       "file", argus)

    def inclusion(arg):
        """The blanks around the name of an include, and what follows it."""
        sep, tail, name, end = arg
        os.makedirs(os.path.join(root, "sub"), exist_ok=True)
        for nm, t in ((name, LINE["b"] + "\n"),
                      ("main.argus", LINE["a"] + "\n$" + sep + name + tail +
                       end + (LINE["r"] + "\n" if end else ""))):
            with open(os.path.join(root, nm), "w", newline="") as f:
                f.write(t)
        want = [("main.argus", 1, LINE["a"]), (name, 1, LINE["b"])] + \
            [("main.argus", 3, LINE["r"])] * bool(end)
        for argus in (0, 1):
            for verbose in (False, True):
                d = ok("deck", (impl.ac if argus else impl.pc).Deck,
                       file="main.argus", verbose=verbose)
                verify(d, want, "deck including by %r" % (
                    "$" + sep + name + tail), argus)

    def directory(arg):
        """A directory is no source; nor is a link that leads nowhere."""
        nm, how, line = arg
        d = os.path.join(root, nm)
        if how == "dir":
            os.mkdir(d)
        elif how == "dangling":
            os.symlink("nowhere", d)
        else:
            os.symlink(os.path.dirname(root), d)
        with open(os.path.join(root, "main.argus"), "w") as f:
            f.write(LINE["a"] + "\n" + line % nm + "\n" + LINE["b"] + "\n")
        try:
            for mod in (impl.pc, impl.ac):
                for top in ("main.argus", nm):
                    k, e = outcome(mod.Deck, file=top)
                    if k == "ok" or not isinstance(e, SystemExit) or \
                            e.code in (0, None) or nm not in str(e.code):
                        fail("%s %s as a source: %s %r", how, nm, k, e)
        finally:
            os.rmdir(d) if how == "dir" else os.unlink(d)

    def linked(arg):
        """Sources reached through links read as the files they lead to,
        under the names given."""
        code, inc = arg
        for sub in ("real", "real/deep"):
            os.makedirs(os.path.join(root, sub), exist_ok=True)
        codes = {"main.argus": code, "inc1.argus": inc, "inc2.argus": "b",
                 "sub/inc3.argus": "bj"}
        os.makedirs(os.path.join(root, "sub"), exist_ok=True)
        for nm, c in codes.items():
            p = os.path.join(root, nm)
            t = os.path.join("real", os.path.basename(nm) + ".txt")
            write(t, c)
            if os.path.lexists(p):
                os.unlink(p)
            os.symlink(os.path.join(root, t), p)
        try:
            for argus in (0, 1):
                d = ok("deck", (impl.ac if argus else impl.pc).Deck,
                       file="main.argus")
                verify(d, flatten("main.argus", codes), "linked deck", argus)
        finally:
            for nm in codes:
                os.unlink(os.path.join(root, nm))

    def longline(arg):
        """Lines of any length are one card each."""
        n, what, end = arg
        for t in ({"X": "X" * n, " ": " " * n, "L": "L      @LOG" + " " * n + "FAR",
                   "#": "#" * n, "t": "A\t" * (n // 2), "R": "R" * n}[what],):
            rows = ["A", t, "B", t, t, "C"]
            for nm, body in (("inc1.argus", rows),
                             ("main.argus", rows[:2] + ["$ inc1.argus"] +
                              rows[1:5])):
                with open(os.path.join(root, nm), "w", newline="") as f:
                    f.write(end.join(body) + end * (n % 2))

            def keep(nm, body):
                return [(nm, i, x) for i, x in enumerate(body, 1)
                        if x[:1] != "#" and x != "$"]
            want = keep("main.argus", rows[:2] + ["$"] + rows[1:5])
            k = len([x for x in rows[:2] if x[:1] != "#"])
            want[k:k] = keep("inc1.argus", rows)
            for argus in (0, 1):
                D = (impl.ac if argus else impl.pc).Deck
                verify(ok("deck", D, file="main.argus"), want, "deck", argus)
                verify(ok("deck", D, lines=[x + "\n" for x in rows]),
                       keep(None, rows), "deck", argus)

    ctx.kind("crowd", crowd)
    ctx.kind("longline", longline)
    ctx.kind("first", first)
    ctx.kind("named", named)
    ctx.kind("inclusion", inclusion)
    ctx.kind("directory", directory)
    ctx.kind("linked", linked)

    for k, f in (("nothing", nothing), ("file", filedeck), ("lines", linedeck), ("tree", tree),
                 ("missing", missing), ("chain", chain),
                 ("long", longdeck), ("several", several)):
        ctx.kind(k, f)

    def run():
        n = 0
        depth = 6 if ctx.deep else 5
        for d in range(0, depth + 1):
            for t in itertools.product("abrcdeLM" if d < 4 else "abceL",
                                       repeat=d):
                for nl in (False, True):
                    for argus in (0, 1):
                        ctx.case("lines", ["".join(t), nl, argus])
                        n += 1
        ctx.count(states=n, transitions=n * 2, traces=n)
        n = 0
        for d in range(0, depth + 1):
            alph = "abcijLe" if d <= 3 else "acije"
            for t in itertools.product(alph, repeat=d):
                code = "".join(t)
                i1s = INC1 if "i" in code else INC1[:1]
                i2s = INC2 if "j" in code or "i" in code else INC2[:1]
                if d == depth:
                    i1s, i2s = i1s[:5:2], i2s[:2] if ctx.wide else \
                        i2s[:1]
                for i1 in i1s:
                    for i2 in i2s:
                        for nl in (True, False) if d > 2 else (True, False,
                                                               "crlf"):
                            ctx.case("file", [code, i1, i2, nl, n % 3 != 0,
                                              n % 5 == 0,
                                              (True, False)[n // 3 % 2]])
                            n += 1
        ctx.count(states=n, transitions=n, traces=n)
        for code in ("a", "i", "j", "ai", "ija", "ca", "bj"):
            for gone in ("main.argus", "inc1.argus", "inc2.argus"):
                for argus in (0, 1):
                    ctx.case("missing", [code, gone, argus])
                    ctx.count(states=1, transitions=1, traces=1)
        for code in map("".join, itertools.product("ashwtzcjkfg", repeat=2)):
            for nl in (False, True):
                for argus in (0, 1):
                    if "k" not in code and "j" not in code:
                        ctx.case("lines", [code, nl, argus])
                    ctx.case("file", [code, "a", "b", nl, argus, False])
                    ctx.count(states=2, transitions=2, traces=2)
        for d in (1, 2, 3):
            for t in itertools.product("NOPQRSTLMa" if d < 3 else "NOQSTa",
                                       repeat=d):
                for nl in (False, True):
                    ctx.case("lines", ["".join(t), nl, 1])
                    ctx.case("file", ["".join(t), "a", "b", nl, 1, False])
                    ctx.count(states=2, transitions=2, traces=2)
        for unit in ("a", "ac", "abrcdeLM", "ki", "cc", "fg"):
            for k in (2, 9, 10, 11, 100, 1001):
                for how in ("file", "lines", "include"):
                    if how == "lines" and unit == "ki" or k > 100 and \
                            len(unit) > 2 or how == "include" and unit == \
                            "ki":
                        continue
                    ctx.case("long", [unit, k, how])
                    ctx.count(states=1, transitions=2, traces=2)
        # large files: beyond any buffer
        for n in (121, 128, 255, 256, 257, 511, 513, 1023, 1024, 1025, 2047,
                  2049, 4095, 4096, 4097, 8191, 8192, 8193, 16385, 32769,
                  65535, 65536, 65537, 100001, 1000001):
            for what in "X L#tR":
                for end in ("\n", "\r\n", "\r"):
                    if n < 10 ** 6 or what == "X" and end == "\n":
                        ctx.case("longline", [n, what, end])
                        ctx.count(states=1, transitions=4, traces=4)
        for unit, k in [("z", 1001), ("a", 10001), ("t", 8193),
                        ("r", 70001), ("r", 100001)] + \
                [("ac", 70001), ("a", 300001)] * ctx.deep:
            for how in ("file", "lines", "include"):
                if how != "include":
                    ctx.case("long", [unit, k, how])
                    ctx.count(states=1, transitions=2, traces=2)
        ctx.case("long", ["z" * 1001, 3, "include"])
        ctx.case("long", ["r" * 100001, 1, "include"])
        ctx.case("long", ["a" * 70001, 2, "include"])
        for ch in list(range(256)) + [0x2028, 0x2588, 0xfeff, 0x1d400]:
            if ch not in (10, 13):
                ctx.case("first", ch)
                ctx.count(states=28, transitions=96, traces=6)
        for i, nm in enumerate(MORE):
            for other in ("inc1.argus", "z", MORE[i - 3]):
                ctx.case("named", [nm, other])
                ctx.count(states=3, transitions=5, traces=5)
        for sep in [""] + list(map("".join, itertools.chain(
                *(itertools.product(" \t", repeat=k) for k in (1, 2, 3))))) \
                + [" " * 6, " " * 40, "\t" * 9]:
            for tail in ("", " ", "\t", "  \t ", " words", "\twords",
                         " # not a comment", " $ inc2.argus", "\t\tx y z",
                         " " * 90 + "far", " inc1.argus"):
                for name in ("inc1.argus", "x", "sub/a.b"):
                    for end in ("\n", "", "\r\n", "\r"):
                        ctx.case("inclusion", [sep, tail, name, end])
                        ctx.count(states=1, transitions=4, traces=4)
        for nm in ("dir", "dir.argus", "D", "x.d", "link"):
            for how in ("dir", "dangling", "dirlink"):
                for line in ("$ %s", "$%s", "$ %s words", "$ ./%s", "$\t%s"):
                    ctx.case("directory", [nm, how, line])
                    ctx.count(states=1, transitions=4, traces=4)
        for t in itertools.product("aijck", repeat=2):
            for inc in INC1:
                ctx.case("linked", ["".join(t), inc])
                ctx.count(states=1, transitions=2, traces=2)
        for argus in (0, 1):
            for n in (130, 1500):
                ctx.case("crowd", [n, argus])
                ctx.count(states=n, transitions=n, traces=n)
            ctx.case("nothing", argus)
            ctx.count(states=1, transitions=2, traces=1)
        for d in (1, 2, 3):
            for t in itertools.product(
                    list(TREE) + ["./x.argus", "p/../q/x.argus"]
                    if d < 3 else ["x.argus", "p/x.argus", "q/x.argus",
                                   "./p/x.argus", "p/y.argus", "q/y.argus"],
                    repeat=d):
                ctx.case("tree", list(t))
                ctx.count(states=1, transitions=4, traces=4)
        for order in itertools.permutations(
                ("one.argus", "two.argus", "sub/t.argus", "one.argus"), 3):
            ctx.case("several", list(order))
            ctx.count(states=3, transitions=6, traces=6)
        for depth in list(range(1, 12)) + [25, 60, 120]:
            ctx.case("chain", depth)
            ctx.count(states=1, transitions=2, traces=1)
        ctx.sample({"deck": "aij", "inc1": "aja", "inc2": "b",
                    "alphabet": LINE})
        ctx.bounds = {"lines per file": 6 if ctx.deep else 5,
                      "include nesting": 120, "deck length": 10001,
                      "file names": len(NAMES)}
        ctx.assumptions = ["Include files are named relative to the current "
                           "directory; no cyclic includes.",
                           "Lines given as a list hold no carriage return: "
                           "at the end of a line it is a line end."]
    return run
