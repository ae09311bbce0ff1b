"""C19-C24: the command-line tools, run on every small deck."""
import ast
import itertools
import os
import re

from mc import tools
from mc.core import expect, fail, ok, import_repo, freeze
from checks.cards import put, card_model, NAMES
from checks.symbols import KINDS, ZOO, build_model, C
from checks.isa import TABLE, PSEUDO

KNOWN = set(TABLE) | set(PSEUDO)

SRC = {
    "a": put(c2="000010", c9="ALPHA", c20="BA,M1", c33="X"),
    "b": put(c2="000020", c20="BA", c33="Y"),
    "t": put(c2="000030", c20="TX, M2", c33="Y"),
    "?": put(c2="000040", c20="ZZ", c33="Y"),
    "!": put(c2="000045", c9="BETA", c20="QQ,M1"),
    "w": put(c2="000047", c20="ba"),
    "*": put(c2="000050", c8="*", c20="ZZ"),
    "+": put(c2="000055", c8="*", c20="BA"),
    "r": put(c1="R", c9="ZZ", c20="ZZ REMARK"),
    "p": put(c1="P", c20="BA"),
    "c": "# ZZ comment",
    "e": "",
    "s": put(c20="SETLOC,2C"),
    "f": put(c20="ALF", c33="TEXT"),
    "n": put(c9="NOOP", c33="X"),
    "l": put(c9="lower", c20="BA"),
    "q": put(c2="000060", c20="ZZ") + "   ",
    "g": put(c1="L", c9="ZZ LOG", c20="QQ"),
    "x": put(c9="GAMMA", c20=",M1"),
    "u": put(c20="B A", c33="BLANK INSIDE"),
    "i": "$ inc.argus",
    "%": "$ inc/inc.argus",
}
LISTED = {
    "B": "     ",
    "W": "  000070    " + " " * 90 + "X",
    "T": "\tTABBED\tCARD\t",
    "U": "\u00e9t\u00e9 \u2588",
}
LISTED.update(ZOO)
ALLZOO = "".join(ZOO)


def lines_of(text):
    """Lines end at a newline and nowhere else."""
    return text[:-1].split("\n") if text.endswith("\n") else \
        text.split("\n") if text else []


NEAR = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789ax-.*/+$' "


def near(word):
    """Every text one character away from the word, and some more."""
    out = [word]
    for i in range(len(word) + 1):
        out += [word[:i] + x + word[i:] for x in NEAR]
        if i < len(word):
            out.append(word[:i] + word[i + 1:])
            out += [word[:i] + x + word[i + 1:] for x in NEAR]
            out.append(word[:i] + word[i].lower() + word[i + 1:])
            out.append(word[:i] + word[i + 1:i + 2] + word[i] + word[i + 2:])
    out += [word[:k] for k in range(1, len(word))] + [word[k:] for k in
                                                      range(1, len(word))]
    out += [word + word, word + "XX", "XX" + word, word.lower(),
            word.title(), word[::-1]]
    return [x[:13] for x in dict.fromkeys(out)]


def herds(size):
    """The cards of the zoo, in decks of the given size."""
    return [ALLZOO[i:i + size] for i in range(0, len(ALLZOO), size)]


INC = "b?"
INC2 = "t!ia"           # of the same name, in another directory


def expand(name, code, nest=True):
    out = []
    for i, ch in enumerate(code, 1):
        if ch == "c":
            continue
        if ch == "i":
            out += expand("inc.argus", INC)
        elif ch == "%":
            out += expand("inc/inc.argus", INC2)
        else:
            out.append((name, i, SRC.get(ch) or LISTED.get(ch, "")))
    return out


def write(name, code, table=SRC):
    if "/" in name:
        os.makedirs(os.path.dirname(name), exist_ok=True)
    with open(name, "w") as f:
        f.write("".join((table[ch] if ch in table else LISTED[ch]) + "\n"
                        for ch in code))


def errors_line(text):
    m = re.findall(r"^(\d+) errors? encountered\.$", text, re.M)
    if len(m) != 1:
        fail("expected one error summary, found %r", m)
    return int(m[0])


def subsequence(want, lines, label):
    """The lines wanted are all there, in order (verbose output may have
    others between them); returns the others."""
    rest, k = [], 0
    for ln in lines:
        if k < len(want) and ln == want[k]:
            k += 1
        else:
            rest.append(ln)
    if k < len(want):
        fail("%s: %r missing or out of order", label, want[k])
    return rest


def unchanged(before, label, allow=()):
    after = tools.snapshot()
    for f in set(before) | set(after):
        if f not in allow and before.get(f) != after.get(f):
            fail("%s: file %s was %s", label, f, "created" if f not in before
                 else "removed" if f not in after else "modified")


# short and long forms of the tools' options
OPTIONS = {
    "check-instructions": [("-a", "--all"), ("-c", "--count"),
                           ("-i", "--invalid"), ("-p", "--print-opcodes"),
                           ("-s", "--sort"), ("-u", "--unused"),
                           ("-v", "--verbose")],
    "parse": [("-d", "--debug"), ("-v", "--verbose")],
    "list-instructions": [("-D", "--details"), ("-v", "--verbose")],
    "list-symbols": [("-v", "--verbose")],
    "check-symbols": [("-c", "--complex"), ("-v", "--verbose")],
    "find-symbols": [("-b", "--begin"), ("-D", "--details"),
                     ("-e", "--end"), ("-f", "--fuzzy"), ("-v", "--verbose"),
                     ("-x", "--exact")],
    "listing": [("-v", "--verbose")],
    "genpages": [], "genlines": [],
}


def order_cases(ctx, tool, argses, upto=2):
    """Cases of kind `order`: every set of up to `upto` options with each of
    the argument lists."""
    def prepare():
        for f in list(tools.snapshot()):
            if f.startswith("order"):
                os.remove(f)
        write("order.argus", "ABCalE", KINDS)
        write("order2.argus", "ab?ts*")
        with open("order3.argus", "w") as f:
            f.write("# Pages: 9-11\nL      @SECTION\nX\n")

    def order(arg):
        ctx._tick += tools.same_everywhere(tool, freeze(arg[0]), arg[1],
                                           prepare)
        for f in list(tools.snapshot()):
            if f.startswith("order"):
                os.remove(f)
    ctx.kind("order-" + tool, order)

    def plain(x, here):
        x = re.sub(r"\b0x[0-9a-f]+", "0x", x).replace(here, "")
        return [ln.split() for ln in lines_of(x)]

    def absolute(arg):
        """Files named by their full path, or from another directory."""
        here = os.getcwd() + os.sep
        first = 1 if arg[1][0][-5:] != "argus" else 0
        opts = [o[0] for o in arg[0]]
        seen = []
        for way in ("", here, "./", "../" + os.path.basename(here[:-1]) +
                    "/"):
            prepare()
            st, out, err = tools.run(tool, opts + arg[1][:first] + [
                way + f for f in arg[1][first:]])
            files = {k: plain(v.decode(), way) for k, v in
                     tools.snapshot().items()}
            seen.append((st, plain(out, way), plain(err, way), files))
            if seen[-1] != seen[0]:
                for x, y in zip(seen[-1], seen[0]):
                    if x != y:
                        fail("%s: files named as %r: %r, otherwise %r", tool,
                             way, x, y)
        for f in list(tools.snapshot()):
            if f.startswith("order"):
                os.remove(f)
    ctx.kind("absolute-" + tool, absolute)

    def cases():
        n = 0
        for r in range(0, upto + 1):
            for o in itertools.combinations(OPTIONS[tool], r):
                for args in argses:
                    ctx.case("order-" + tool, [list(o), list(args)])
                    ctx.case("absolute-" + tool, [list(o), list(args)])
                    n += 1
        ctx.count(states=n, transitions=n * 8, traces=n)
    return cases


# ---- C19 ------------------------------------------------------------------

PARSEOPTS = [[], ["-d"], ["-v"], ["-d", "-v"]]


def checkers(ctx):
    os.chdir(ctx.scratch())
    write("inc.argus", INC)
    write("inc/inc.argus", INC2)

    def invalid_reports(out, want, label):
        got = re.findall(r'Invalid instruction "(.*)":\n'
                         r'File (\S+), line (\d+): (.*)$', out, re.M)
        exp = [(card_model(t)["instruction"], f, str(n), t)
               for f, n, t in want]
        if got != exp:
            fail("%s: %d invalid instructions reported, expected %d: %r, "
                 "expected %r", label, len(got), len(exp), got[:6], exp[:6])

    def analyse(files):
        cards = [c for name, code in files for c in expand(name, code)]
        bad, counts, active = [], dict.fromkeys(KNOWN, 0), []
        for f, n, t in cards:
            m = card_model(t)
            if not m["instruction"]:
                continue
            active.append((f, n, t))
            if m["column8"] == "*":
                continue
            if m["instruction"] in KNOWN:
                counts[m["instruction"]] += 1
            else:
                bad.append((f, n, t))
        return cards, active, bad, counts

    def check(arg):
        files, opts = arg
        for name, code in files:
            write(name, code)
        before = tools.snapshot()
        st, out, err = tools.run("check-instructions",
                                 opts + [n for n, _ in files])
        label = "check-instructions %s" % opts
        cards, active, bad, counts = analyse(files)
        expect(label + " exit", st, 0)
        expect(label + " errors", errors_line(out), len(bad))
        invalid_reports(out, bad, label)
        for o, mark in (("-c", "Source lines:"), ("-c", "Total "),
                        ("-u", "Unused Instructions:")):
            if o not in opts and re.search("^" + mark, out, re.M):
                fail("%s: prints %r unasked", label, mark)
        if "-p" not in opts and "-v" not in opts and re.search(
                r"^\S*argus \d+ ", out, re.M):
            fail("%s: lists cards unasked", label)
        if "-c" in opts:
            m = re.search(r"^Source lines: (\d+)$", out, re.M)
            if not m:
                fail("%s: no line count", label)
            expect(label + " source lines", int(m.group(1)), len(cards))
            rows = re.findall(r"^(\S+) +(\d+) +([\d.]+)%$", out, re.M)
            total = [int(n) for k, n, _ in rows if k == "Total"]
            body = [(k, int(n), float(p)) for k, n, p in rows
                    if k != "Total"]
            if len(total) != 1:
                fail("%s: no total", label)
            expect(label + " total", total[0], len(active))
            want = {k: n for k, n in counts.items()
                    if n or "-u" not in opts}
            if {k: n for k, n, _ in body} != want or \
                    len(body) != len(want):
                diff = {k for k in set(want) | {b[0] for b in body}
                        if want.get(k) != dict((b[0], b[1])
                                               for b in body).get(k)}
                fail("%s: frequencies wrong for %s", label,
                     sorted(diff)[:4] or "a repeated row")
            for k, n, p in body:
                if abs(p - (100.0 * n / total[0] if total[0] else 0)) > .011:
                    fail("%s: %s has %d of %d but %.2f%%", label, k, n,
                         total[0], p)
            if "-s" in opts:
                ns = [n for _, n, _ in body]
                if ns != sorted(ns, reverse=True):
                    fail("%s: not sorted by frequency", label)
            else:
                ks = [k for k, _, _ in body]
                if ks != sorted(ks):
                    fail("%s: not in alphabetical order", label)
        if "-u" in opts:
            part = out.split("Unused Instructions:\n", 1)
            if len(part) != 2:
                fail("%s: no unused section", label)
            got = [x for x in lines_of(part[1])
                   if x and "encountered" not in x]
            expect(label + " unused", got,
                   sorted(k for k in KNOWN if not counts[k]))
        if "-p" in opts:
            lines = lines_of(out)
            if "-v" not in opts:
                got = [x for x in lines
                       if re.match(r"[a-z/]+\.argus \d+ ", x)]
                expect(label + " listed cards", got,
                       ["%s %d %s" % c for c in active])
            lines = set(lines)
            for f, n, t in active:
                if "%s %d %s" % (f, n, t) not in lines:
                    fail("%s: %s:%d not listed", label, f, n)
        unchanged(before, label)

    def parse(arg):
        files, opts = arg
        for name, code in files:
            write(name, code)
        before = tools.snapshot()
        st, out, err = tools.run("parse", opts + [n for n, _ in files])
        label = "parse %s" % opts
        cards, active, bad, counts = analyse(files)
        model, symerrs = {}, []
        for name, code in files:
            symerrs.append(build_model(name, expand(name, code), model))
        expect(label + " exit", st, 0)
        expect(label + " errors", errors_line(out), len(bad) + sum(symerrs))
        invalid_reports(out, bad, label)
        m = re.search(r"^Source lines: (\d+)$", out, re.M)
        expect(label + " source lines", int(m.group(1)), len(cards))
        got = re.findall(r"^(\S+): (\d+) errors encountered building symbol "
                         r"table\.$", err, re.M)
        expect(label + " symbol errors", [(a, int(b)) for a, b in got],
               [(n, e) for (n, _), e in zip(files, symerrs)])
        unchanged(before, label)

    def mnemonic(arg):
        """Each recognised mnemonic is accepted, masked or not."""
        with open("one.argus", "w") as f:
            f.write(put(c20=arg) + "\n" + put(c20=arg + ",M1") + "\n")
        st, out, err = tools.run("check-instructions", ["-c", "one.argus"])
        expect("errors for %s" % arg, errors_line(out),
               0 if arg in KNOWN else 2)
        if arg in KNOWN:
            m = re.search(r"^%s +(\d+) " % re.escape(arg), out, re.M)
            expect("count of %s" % arg, int(m.group(1)), 2)

    def almost(arg):
        """A deck of every operation one character away from a mnemonic:
        the unrecognised ones are reported, by both tools, and no other."""
        rows = [put(c2="%06d" % i, c20=w) for i, w in enumerate(near(arg))]
        rows = [r for r in rows if card_model(r)["instruction"]]
        with open("near.argus", "w") as f:
            f.write("".join(r + "\n" for r in rows))
        want = [("near.argus", i, r) for i, r in enumerate(rows, 1)
                if card_model(r)["instruction"] not in KNOWN]
        for tool in ("check-instructions", "parse"):
            st, out, err = tools.run(tool, ["near.argus"])
            expect("%s near %s" % (tool, arg), errors_line(out), len(want))
            invalid_reports(out, want, "%s near %s" % (tool, arg))

    def usage(tool):
        st, out, err = tools.run(tool, [])
        if st == 0:
            fail("%s without a file name reports success", tool)
        st, out, err = tools.run(tool, ["no-such-file.argus"])
        if st == 0:
            fail("%s of a missing file reports success", tool)

    def real(arg):
        tool, args, code = arg
        write("m.argus", code)
        a = tools.run(tool, args)
        b = tools.run_process(tool, args)
        if (a[0], a[1]) != (b[0], b[1]):
            fail("%s %s: in-process and real runs differ", tool, args)

    for k, f in (("check", check), ("parse", parse), ("usage", usage),
                 ("mnemonic", mnemonic), ("real", real), ("almost", almost)):
        ctx.kind(k, f)
    OPTSETS = [list(c) for r in range(4) for c in
               itertools.combinations(["-a", "-c", "-i", "-p", "-s", "-u"],
                                      r)]

    orders = [order_cases(ctx, "check-instructions", [["order.argus"], ["order2.argus", "order.argus"]], 3),
              order_cases(ctx, "parse", [["order.argus"], ["order2.argus", "order.argus"]])]

    def run():
        n = 0
        for o in orders:
            o()
        for d in range(0, 3):
            for t in itertools.product(SRC, repeat=d):
                code = "".join(t)
                ctx.case("check", [[["m.argus", code]],
                                   OPTSETS[n % len(OPTSETS)]])
                ctx.case("parse", [[["m.argus", code]], []])
                n += 1
        for t in itertools.product(SRC if ctx.deep else "at?!*+ric%",
                                   repeat=3):
            ctx.case("check", [[["m.argus", "".join(t)]], ["-c"]])
            ctx.case("parse", [[["m.argus", "".join(t)]], []])
            n += 1
        for code in ("", "c", "a?*bt", "rpe", "iab", "a", "+"):
            for o in OPTSETS:
                for v in ([], ["-v"]):
                    ctx.case("check", [[["m.argus", code]], o + v])
                    n += 1
            for o in (["-d"], ["-v"], ["-d", "-v"]):
                ctx.case("parse", [[["m.argus", code]], o])
                n += 1
        two = ["", "a", "?", "l", "n!", "*", "i", "a?"]
        for c1 in two:
            for c2 in two:
                fs = [["m.argus", c1], ["n.argus", c2]]
                ctx.case("check", [fs, ["-c"]])
                ctx.case("parse", [fs, []])
                n += 1
                for c3 in ("", "?", "l") if ctx.wide else ("l",):
                    ctx.case("parse", [fs + [["o.argus", c3]], []])
                    n += 1
        # long decks: k copies of a unit (counts beyond one and two digits),
        # also spread over several files and includes
        for unit in ("a", "?", "*", "ab?", "?r*", "i", "l"):
            for k in (9, 10, 11, 99, 100, 101, 1001):
                if k > 101 and unit not in ("a", "?", "ab?"):
                    continue
                for o in OPTSETS:
                    for v in ([], ["-v"]):
                        ctx.case("check", [[["m.argus", unit * k]], o + v])
                for o in PARSEOPTS:
                    ctx.case("parse", [[["m.argus", unit * k]], o])
                n += 3
        for k in (3, 9, 10, 11):
            fs = [["%s.argus" % chr(97 + i), ("a?", "i", "?*l")[i % 3]]
                  for i in range(k)]
            ctx.case("check", [fs, ["-c"]])
            ctx.case("check", [fs[::-1], ["-p"]])
            for o in PARSEOPTS:
                ctx.case("parse", [fs, o])
            n += 3
        for i, h in enumerate(herds(100)):
            for o in (["-c"], ["-p"], OPTSETS[i % len(OPTSETS)],
                      OPTSETS[(i * 5 + 3) % len(OPTSETS)] + ["-v"]):
                ctx.case("check", [[["m.argus", h]], o])
            for o in PARSEOPTS:
                ctx.case("parse", [[["m.argus", h], ["n.argus", h[:9]]], o])
            n += 400
        # every card of the one file with every card of the next
        for x, y in itertools.product(SRC, repeat=2):
            fs = [["m.argus", x], ["n.argus", y]]
            ctx.case("check", [fs, ["-c"]])
            ctx.case("check", [fs, ["-u"] if n % 2 else ["-p"]])
            ctx.case("check", [fs, OPTSETS[n // 3 % len(OPTSETS)] + ["-v"]])
            for o in PARSEOPTS:
                ctx.case("parse", [fs, o])
            n += 3
        for i, h in enumerate(herds(100)):
            fs = [["m.argus", "a"], ["n.argus", h]]
            ctx.case("check", [fs, ["-c"]])
            ctx.case("parse", [fs, []])
            n += 200
        # instructions used seldom among many
        for big in (99, 999, 1000, 1001, 9999, 10001):
            for few in (1, 2, 3):
                for o in (["-u"], ["-c", "-u"], ["-c", "-s", "-u"], ["-c"]):
                    ctx.case("check", [[["m.argus", "f" * few + "a" * big]],
                                       o])
                    n += 1
        # ranking by frequency: counts of one to five digits, near ties
        for big in (10, 100, 1000, 10000):
            for a, b in ((big, big - 1), (big, 2), (big, big // 5),
                         (big + 1, big), (big // 2, big // 2)):
                for x, y in ("af", "fa", "bt", "tb"):
                    ctx.case("check", [[["m.argus", x * a + y * b + "s"]],
                                       ["-c", "-s"]])
                    n += 1
        # very many cards, and very many files
        for unit, k in (("a", 65537), ("?", 9999), ("?*", 10001),
                        ("r", 100001), ("ab", 50001), ("c", 65537)):
            ctx.case("check", [[["m.argus", unit * k + "?a"]],
                               ["-c", "-s", "-u"]])
            ctx.case("check", [[["m.argus", unit * k + "?a"]], ["-c"]])
            for o in (["-a", "-v"], ["-i", "-p"], ["-a", "-c", "-u", "-s",
                                                   "-p", "-v"]):
                ctx.case("check", [[["m.argus", unit * k + "?a*"]], o])
            for o in PARSEOPTS:
                ctx.case("parse", [[["m.argus", unit * k + "?a*"]], o])
            n += 9
        for k in (51, 100, 130, 300):
            fs = [["m%d.argus" % i, "a?*lb"[i % 5]] for i in range(k)]
            for o in ([], ["-c"], ["-u"], ["-a", "-v"], ["-i", "-c", "-s"]):
                ctx.case("check", [fs, o])
            for o in PARSEOPTS:
                ctx.case("parse", [fs, o])
            n += 9
        # the same file named more than once, and other names of it
        for code in ("a", "?", "l", "a?i", "*n", ""):
            for names in (("m.argus",) * 2, ("m.argus",) * 3,
                          ("m.argus", "n.argus", "m.argus"),
                          ("m.argus", "./m.argus"),
                          ("n.argus", "n.argus", "m.argus", "m.argus")):
                fs = [[x, code] for x in names]
                for o in (["-c"], ["-c", "-u"], ["-i"], [], ["-a", "-v"]):
                    ctx.case("check", [fs, o])
                for o in PARSEOPTS:
                    ctx.case("parse", [fs, o])
                n += 9
        # files of unusual names
        for i, nm in enumerate(NAMES):
            if nm.startswith("-"):
                continue
            for fs in ([[nm, "a?*l"]], [[nm, "?i"], [NAMES[i - 3], "!"]]):
                for o in ([], ["-c"], ["-c", "-u"]):
                    ctx.case("check", [fs, o])
                ctx.case("parse", [fs, []])
                n += 4
        # ratios: j of one instruction among k of another
        for j in range(1, 8):
            for k in range(1, 8):
                ctx.case("check", [[["m.argus", "a" * j + "f" * k]],
                                   ["-c", "-s"]])
                n += 1
        for m in sorted(KNOWN) + ["ZZ", "B", "BAX", "ba", "FFF", "TXX"]:
            ctx.case("mnemonic", m)
            n += 1
        for m in sorted(KNOWN):
            ctx.case("almost", m)
            n += len(near(m))
        ctx.count(states=n, transitions=2 * n, traces=2 * n)
        for t in ("check-instructions", "parse"):
            ctx.case("usage", t)
            ctx.count(transitions=2, traces=1)
        ctx.case("real", ["check-instructions", ["-c", "-u", "m.argus"],
                          "a?*b"])
        ctx.case("real", ["parse", ["m.argus"], "a?l"])
        ctx.count(transitions=2, traces=2)
        ctx.sample({"deck": [SRC[c] for c in "a?*"], "options": ["-c"]})
        ctx.bounds = {"cards per deck": "2 over %d kinds, 3 over 5-9" %
                      len(SRC), "option sets": len(OPTSETS)}
    return run


# ---- C20 ------------------------------------------------------------------

LIST = {
    "a": put(c20="BA"), "b": put(c2="000020", c20="BA,M1", c33="Q"),
    "c": put(c20="BA, M1"), "d": put(c20="BA,M12"), "e": put(c20="BAX"),
    "f": put(c20="TX,M1"), "*": put(c8="*", c20="BA"),
    "r": put(c1="R", c20="BA"), "#": "# BA", "n": put(c9="BA"),
    "o": put(c20="B A"), "t": put(c20="TX", c33="BA"), "-": "",
    "i": "$ inc.argus", "%": "$ inc/inc.argus", "B": put(c20="BA,"), "8": put(c8="T", c20="BA,M1"),
    "x": put(c20="BA,M1,2"), "y": put(c20="BA,,M1"), "z": put(c20=",BA"),
    "q": put(c2="000070", c9="LAB", c20="BA", c33="A") + "   ",
    "P": put(c1="P", c20="BA"), "L": put(c1="L", c20="BA"),
    "w": put(c20="ba"), "m": put(c20="BA,m1"), "9": put(c20=" BA"),
    "A": put(c20="BA", c33="X", c45="BA,M1", c57="TX"),
    "E": put(c8="*", c20="TX,M1"), "s": put(c20="TX ,M1"),
}


def lister(ctx):
    os.chdir(ctx.scratch())

    def expand2(name, code):
        out = []
        for i, ch in enumerate(code, 1):
            if ch == "#":
                continue
            if ch == "i":
                out += expand2("inc.argus", "bf")
            elif ch == "%":
                out += expand2("inc/inc.argus", "tic")
            else:
                out.append((name, i, LIST.get(ch) or LISTED.get(ch, "")))
        return out

    def matches(op, t):
        m = card_model(t)
        if not m["operation"] or m["column8"] == "*":
            return False
        o = m["operation"].replace(" ", "")
        if op.endswith(","):
            return o.startswith(op)
        if "," in op:
            return o == op
        return o.split(",")[0] == op

    def lst(arg):
        op, files, det = arg
        write("inc.argus", "bf", LIST)
        write("inc/inc.argus", "tic", LIST)
        for name, code in files:
            write(name, code, LIST)
        before = tools.snapshot()
        st, out, err = tools.run("list-instructions",
                                 ([det] if isinstance(det, str) else
                                  ["-D"] if det else []) + [op] +
                                 [n for n, _ in files])
        expect("exit", st, 0)
        want = [(f, n, t) for name, code in files
                for f, n, t in expand2(name, code) if matches(op, t)]
        got = lines_of(out)
        label = "list %s of %r" % (op, [c for _, c in files])
        unchanged(before, label)
        # the same with verbose output, which only adds to it
        st, out, err = tools.run("list-instructions", ["-v"] +
                                 (["-D"] if det else []) + [op] +
                                 [n for n, _ in files])
        expect("exit", st, 0)
        rest = subsequence(got, lines_of(out), label + " -v")
        plain = {t for name, code in files for _, _, t in expand2(name, code)
                 if card_model(t)["column8"] != "*" and t.strip()}
        for ln in rest:
            if ln in plain:
                fail("%s -v: lists %r too", label, ln)
        expect(label + " number of lines", len(got), len(want))
        for g, (f, n, t) in zip(got, want):
            if det:
                if len(g) < len(t) or g[len(g) - len(t):] != t or \
                        [x.strip() for x in g[:len(g) - len(t)].rsplit(
                            None, 1)] != [f, str(n)]:
                    fail("%s: %r, expected %s:%d %r", label, g, f, n, t)
            else:
                expect(label, g, t)
        unchanged(before, label)

    def bad(op):
        write("m.argus", "ab", LIST)
        st, out, err = tools.run("list-instructions", [op, "m.argus"])
        if st == 0:
            fail("invalid opcode %r accepted", op)
        if out.strip():
            fail("invalid opcode %r listed %r", op, out)

    def every(op):
        with open("m.argus", "w") as f:
            for m in sorted(KNOWN):
                f.write(put(c20=m) + "\n")
        st, out, err = tools.run("list-instructions", [op, "m.argus"])
        expect("cards listed for %s" % op, lines_of(out), [put(c20=op)])

    def almost(op):
        """Texts one character away from a mnemonic: refused unless they are
        mnemonics, and cards using them are not listed for it."""
        words = [w for w in near(op) if card_model(put(c20=w))["operation"]]
        with open("m.argus", "w") as f:
            for w in words:
                f.write(put(c20=w) + "\n" + put(c20=w + ",M1") + "\n")
        for q in (op, op + ",M1", op + ","):
            want = [r for w in words for r in (put(c20=w),
                                               put(c20=w + ",M1"))
                    if matches(q, r)]
            st, out, err = tools.run("list-instructions", [q, "m.argus"])
            expect("exit", st, 0)
            expect("cards listed for %s" % q, lines_of(out), want)
        for w in words:
            if w.startswith("-") or w in KNOWN or not (
                    ctx.deep or w[:-1] == op or w[1:] == op or
                    op.startswith(w)):
                continue
            bad(w)

    def real(arg):
        write("m.argus", "abcdef", LIST)
        a = tools.run("list-instructions", arg)
        b = tools.run_process("list-instructions", arg)
        if a[:2] != b[:2]:
            fail("in-process and real runs differ")

    for k, f in (("list", lst), ("bad", bad), ("every", every),
                 ("real", real), ("almost", almost)):
        ctx.kind(k, f)
    OPC = ["BA", "BA,M1", "BA,", "TX", "TX,", "TX,M1", "BA,M", "DA",
           "BA,M1,", "BA,M1,2", "BA,m1"]

    orders = [order_cases(ctx, "list-instructions", [[q] + f for q in ("BA", "BA,", "TX,M2")
                                          for f in (["order.argus"],
                                                    ["order2.argus",
                                                     "order.argus"])])]

    def run():
        n = 0
        for o in orders:
            o()
        for d in range(0, 2):
            for t in itertools.product(LIST, repeat=d):
                for op in OPC:
                    for det in (0, 1):
                        ctx.case("list", [op, [["m.argus", "".join(t)]],
                                          det])
                        n += 1
        for t in itertools.product(LIST, repeat=2):
            for op in OPC:
                ctx.case("list", [op, [["m.argus", "".join(t)]], n % 2])
                n += 1
        for t in itertools.product(LIST if ctx.wide else "abf*i-%",
                                   repeat=3):
            for op in OPC if ctx.deep else [OPC[n % 7]]:
                ctx.case("list", [op, [["m.argus", "".join(t)]],
                                  n // 7 % 2])
                n += 1
        for unit in ("a", "bf", "*a", "i", "#a", "xcq"):
            for k in (9, 10, 99, 100, 101, 1001):
                for op in ("BA", "BA,", "BA,M1"):
                    ctx.case("list", [op, [["m.argus", unit * k]], n % 2])
                    n += 1
        for h in herds(500):
            for op in OPC + ["ALF", "SETLOC", "SETLOC,", "SETLOC,5",
                             "SETLOC,6X", "EQUALS", "NN,", "NN,M1"]:
                ctx.case("list", [op, [["m.argus", h]], n % 2])
                n += 1
        for x, y in itertools.product(LIST, repeat=2):
            for op in ("BA", "BA,", OPC[n % len(OPC)]):
                ctx.case("list", [op, [["m.argus", x], ["n.argus", y]],
                                  n // 3 % 2])
                n += 1
        for i, h in enumerate(herds(200)):
            for op in ("BA", "BA,", "BA,M1", "ALF", "TX"):
                ctx.case("list", [op, [["m.argus", "a"], ["n.argus", h],
                                       ["o.argus", h[::-1]]], i % 2])
                n += 1
        for unit, k in (("r", 9999), ("#", 65536), ("-", 99999), ("a", 10001),
                        ("f", 100001)):
            for det in (0, 1):
                ctx.case("list", ["BA", [["m.argus", unit * k + "abf"]],
                                  det])
                n += 1
        for k in list(range(3, 13)) + [51, 100, 130, 300]:
            ctx.case("list", ["BA", [["f%d.argus" % i, "abi*"[i % 4]]
                                     for i in range(k)], k % 2])
            n += 1
        for stem in (1, 40, 48, 49, 100):
            ctx.case("list", ["BA", [["f" * stem, "aib"]], 1])
            n += 1
        for op in OPC:
            for c1 in ("", "a", "bf", "i*a", "cde"):
                for c2 in ("", "b", "ia", "#t"):
                    ctx.case("list", [op, [["m.argus", c1],
                                           ["n.argus", c2]], n % 2])
                    n += 1
        for code in ("a", "bf", "i", "*", ""):
            for names in (("m.argus",) * 2, ("m.argus",) * 3,
                          ("m.argus", "n.argus", "m.argus"),
                          ("m.argus", "./m.argus")):
                for op in ("BA", "BA,M1", "TX,"):
                    for det in (0, 1):
                        ctx.case("list", [op, [[x, code] for x in names],
                                          det])
                        n += 1
        for i, nm in enumerate(NAMES):
            for op in ("BA", "TX,"):
                for det in (0, 1):
                    ctx.case("list", [op, [[nm, "abf*"]], det])
                    ctx.case("list", [op, [[nm, "aif"], [NAMES[i - 3], "i"]],
                                      det])
                    n += 2
        for code in ("ab", "bf", "i*a", "cdei"):
            for op in OPC:
                ctx.case("list", [op, [["m.argus", code]], "--details"])
                n += 1
        for op in ("ZZ", "ZZ,M1", ",", "", "ba", "B", "BA M1", "BAX,", "Z",
                   "BA;M1", "TXX", "BAA,M1", "M1", ",BA", " BA", "BA "):
            ctx.case("bad", op)
            n += 1
        for op in sorted(KNOWN):
            ctx.case("every", op)
            ctx.case("almost", op)
            n += 4
        ctx.case("real", ["BA,M1", "m.argus"])
        ctx.case("real", ["-D", "BA", "m.argus"])
        ctx.count(states=n, transitions=n, traces=n)
        ctx.sample({"deck": [LIST[c] for c in "bc*"], "opcode": "BA,M1"})
        ctx.bounds = {"cards per deck": 3 if ctx.wide else 2,
                      "card kinds": len(LIST), "queries": OPC}
    return run


# ---- C21 ------------------------------------------------------------------

def symbol_tools(ctx):
    os.chdir(ctx.scratch())
    os.makedirs("d")

    INCL = "BA2C"
    SYMS = dict(KINDS)
    SYMS["$"] = "$ inc.argus"
    SYMS["%"] = "$ d/inc.argus"
    INCL2 = "a$C2E"
    SYMS["#"] = "# comment"
    for i in range(30):         # thirty absolute, thirty complex symbols
        SYMS[chr(0x100 + i)] = C(i, "S%dX" % (i * 37 % 101), "BA")
        SYMS[chr(0x200 + i)] = C(i, "Q%d" % (i * 37 % 101), "ASSIGN", "3,0")
    SA = "".join(chr(0x100 + i) for i in range(30))
    # and symbols with any character at either end and inside
    MARKS = [x for x in map(chr, range(33, 127)) if x not in '",']
    ODD = []
    for i, x in enumerate(MARKS):
        for j, (t, op) in enumerate((("A" + x + "B", "ASSIGN"),
                                     (x + "AB", "BA"), ("AB" + x, "TAS"),
                                     (x + x, "TAS"), (x, "BA"),
                                     (x + "s", "TAS"), ("s" + x, "BA"))):
            SYMS[chr(0x3000 + i * 8 + j)] = C(i, t.upper(), op, "3,0")
        ODD.append([chr(0x3000 + i * 8 + j) for j in range(7)])
    SC = "".join(chr(0x200 + i) for i in range(30))

    def cards_of(name, code):
        out = []
        for i, k in enumerate(code, 1):
            if k == "$":
                out += cards_of("inc.argus", INCL)
            elif k == "%":
                out += cards_of("d/inc.argus", INCL2)
            elif k != "#":
                out.append((name, i, SYMS.get(k) or ZOO[k]))
        return out

    def load(files):
        write("inc.argus", INCL, SYMS)
        write("d/inc.argus", INCL2, SYMS)
        for name, code in files:
            write(name, code, SYMS)
        model, errs = {}, []
        for name, code in files:
            errs.append(build_model(name, cards_of(name, code), model))
        return model, errs

    def card_text(files, key, model):
        f, n = model[key][:2]
        code = dict(files).get(f, INCL2 if f == "d/inc.argus" else INCL)
        k = code[n - 1]
        return SYMS.get(k) or ZOO[k]

    def listed(arg):
        files = arg
        model, errs = load(files)
        before = tools.snapshot()
        st, out, err = tools.run("list-symbols", [n for n, _ in files])
        expect("exit", st, 0)
        want = []
        last = (None, None, None)
        for key in sorted(model):
            tag, seg, sub, kind = key
            if tag != last[0]:
                want.append(tag.split())
                last = (tag, None, None)
            if seg != last[1]:
                want.append(("Segment: " + seg).split())
                last = (tag, seg, None)
            if sub != last[2]:
                want.append(("Subsegment: " + sub).split())
                last = (tag, seg, sub)
            e = model[key]
            want.append(("<%s> %s %s:%d %s" %
                         (kind, e[3], os.path.splitext(e[0])[0], e[1],
                          card_text(files, key, model))).split())
        rows = out.split("\n")
        if rows[-1] == "":
            rows.pop()
        texts = [card_text(files, k, model) for k in sorted(model)]
        got = [ln.split() for ln in rows]
        if got == want:
            cards = [r for r, w in zip(rows, want) if w[0] in ("<simple>", "<complex>")]
            for r, t in zip(cards, texts):
                if not r.endswith("  " + t):
                    fail("listing of %r: %r does not show the card %r",
                         files, r, t)
        else:
            for g, w in itertools.zip_longest(got, want):
                if g != w:
                    fail("listing of %r: %r, expected %r", files, g, w)
        m = re.findall(r"^(\d+) errors found$", err, re.M)
        expect("errors of %r" % files, [int(x) for x in m],
               [sum(errs)] if sum(errs) else [])
        st, vout, verr = tools.run("list-symbols",
                                   ["-v"] + [n for n, _ in files])
        subsequence(lines_of(out), lines_of(vout), "list-symbols -v")
        expect("list-symbols -v errors", re.findall(
            r"^(\d+) errors found$", verr, re.M), m)
        unchanged(before, "list-symbols")

    def checked(arg):
        files, complexonly = arg
        model, errs = load(files)
        before = tools.snapshot()
        st, out, err = tools.run("check-symbols",
                                 (["-c"] if complexonly is True else
                                  [complexonly] if complexonly else []) +
                                 [n for n, _ in files])
        expect("exit", st, 0)
        got = re.findall(r"^(\S+): (\d+) errors encountered building symbol "
                         r"table\.$", err, re.M)
        expect("errors per file", [(a, int(b)) for a, b in got],
               [(n, e) for (n, _), e in zip(files, errs)])
        tags = sorted({k[0] for k in model})
        only = [t for t in tags if not any(k[0] == t and k[3] == "simple"
                                           for k in model)] \
            if complexonly else []
        expect("complex-only symbols", re.findall(
            r'^ERROR: symbol "([^"]*)" has a complex', err, re.M), only)
        tot = re.findall(r"^Total: (\d+) errors encountered\.$", err, re.M)
        expect("total", [int(x) for x in tot],
               [sum(errs) + len(only)] if len(files) > 1 else [])
        both = out + err
        for t in only:
            m = re.findall(r"^  %s - (.*)$" % re.escape(t), both, re.M)
            if len(m) != 1:
                fail("symbol %s is not explained once: %r", t, m)
            absol = [x for x in tags if any(k[0] == x and k[3] == "simple"
                                            for k in model)]
            if absol:
                names = m[0].split(":", 1)[-1].split()
                if not set(names) <= set(absol) or \
                        len(names) != len(set(names)) or \
                        len(names) != min(10, len(absol)):
                    fail("suggestions %r for %s, absolute symbols are %r",
                         names, t, absol)
            elif "No matches" not in m[0]:
                fail("no suggestions possible for %s, got %r", t, m[0])
        m = re.findall(r"^(\d+) errors checking symbol table\.$", err, re.M)
        expect("check summary", [int(x) for x in m],
               [len(only)] if only else [])
        st, vout, verr = tools.run("check-symbols", ["-v"] +
                                   (["-c"] if complexonly else []) +
                                   [n for n, _ in files])
        for pat in (r"^\S+: \d+ errors encountered building .*$",
                    r'^ERROR: symbol "[^"]*" has a complex', r"^Total: .*$",
                    r"^\d+ errors checking symbol table\.$"):
            expect("check-symbols -v", re.findall(pat, verr, re.M),
                   re.findall(pat, err, re.M))
        subsequence(lines_of(out), lines_of(vout), "check-symbols -v")
        unchanged(before, "check-symbols")

    def found(arg):
        sym, files, opt = arg
        model, errs = load(files)
        before = tools.snapshot()
        many = [opt] if opt else []
        for o in ("-D", "-x", "-v"):
            if opt and opt.startswith(o + "-"):
                opt = opt[len(o):]
                many = [o, opt]
        st, out, err = tools.run("find-symbols", many + [sym] +
                                 [n for n, _ in files])
        if many[:1] == ["-v"]:
            out = "\n".join(ln for ln in lines_of(out)
                            if ln[:1] in "{[")
        label = "find-symbols %s %s in %r" % (opt, sym, files)
        expect(label + " exit", st, 0)
        tags = sorted({k[0] for k in model})
        opt = {"--begin": "-b", "--end": "-e", "--fuzzy": "-f",
               "--exact": "-x", "--details": "-D"}.get(opt, opt)
        if opt in ("-b", "-e", "-f"):
            got = ast.literal_eval(out.strip()) if out.strip() else []
            if opt == "-b":
                expect(label, got, [t for t in tags if t.startswith(sym)])
            elif opt == "-e":
                expect(label, got, [t for t in tags if t.endswith(sym)])
            else:
                absol = [x for x in tags if any(
                    k[0] == x and k[3] == "simple" for k in model)]
                if len(absol) <= 10:
                    expect(label, sorted(got), sorted(absol))
                else:
                    expect(label + " matches", len(got), 10)
                    if len(set(got)) != 10 or not set(got) <= set(absol):
                        fail("%s: %r are not ten of the absolute symbols",
                             label, got)
                if sym in absol and got[:1] != [sym]:
                    fail("%s: the symbol itself is not the best match of "
                         "%r", label, got)
        else:
            defs = {k: v for k, v in model.items() if k[0] == sym}
            locs = re.findall(r"'file': '([^']*)', 'line': (\d+)", out)
            expect(label, sorted(locs),
                   sorted((v[0], str(v[1])) for v in defs.values()))
            if not defs and 'Undefined symbol "%s"' % sym not in err:
                fail("%s: undefined symbol not reported", label)
        got = re.findall(r"^(\S+): (\d+) errors encountered building symbol "
                         r"table\.$", err, re.M)
        expect("errors per file", [(a, int(b)) for a, b in got],
               [(n, e) for (n, _), e in zip(files, errs)])
        unchanged(before, "find-symbols")

    def usage(arg):
        tool, args = arg
        write("a.argus", "A", KINDS)
        st, out, err = tools.run(tool, args)
        if st == 0:
            fail("%s %s reports success", tool, args)

    def real(arg):
        tool, args, code = arg
        write("a.argus", code, KINDS)
        a = tools.run(tool, args)
        b = tools.run_process(tool, args)
        if a[:2] != b[:2]:
            fail("%s: in-process and real runs differ", tool)

    def wide(arg):
        """Very many symbols."""
        k, kind, tail = arg
        with open("a.argus", "w") as f:
            f.write("".join(put(c9="T%d" % i, c20=kind) + "\n"
                            for i in range(k)))
            f.write("".join(SYMS[c] + "\n" for c in tail))
        names = sorted(["T%d" % i for i in range(k)] + ["ALPHA"] * len(tail))
        st, out, err = tools.run("list-symbols", ["a.argus"])
        expect("symbols listed", [x for x in lines_of(out) if x[:1] != " "],
               names)
        for opt, q in (("-b", "T"), ("-e", "1"), ("-b", "T1"), ("-b", "")):
            for more in ([], ["-D"], ["-v"]):
                st, out, err = tools.run("find-symbols",
                                         more + [opt, q, "a.argus"])
                if more == ["-v"]:
                    out = "\n".join(ln for ln in lines_of(out)
                                    if ln[:1] in "{[")
                expect("symbols found", ast.literal_eval(out.strip() or "[]"),
                       [x for x in names if (x.startswith(q) if opt == "-b"
                                             else x.endswith(q))])
        st, out, err = tools.run("list-symbols", ["-v", "a.argus"])
        expect("symbols listed verbosely",
               [x for x in lines_of(out) if x in set(names)], names)
        only = sorted(["T%d" % i for i in range(k)] if kind == "ASSIGN" else
                      [] + ["ALPHA"] * (tail == "C"))
        for more in ([], ["-v"]):
            st, out, err = tools.run("check-symbols",
                                     more + ["-c", "a.argus"])
            expect("complex-only symbols", re.findall(
                r'^ERROR: symbol "([^"]*)" has a complex', err, re.M), only)
            expect("complex-only symbols explained", [
                x.split()[0] for x in lines_of(out) + lines_of(err)
                if x.startswith("  ")], only)
            expect("check summary", re.findall(
                r"^(\d+) errors checking symbol table\.$", err, re.M),
                [str(len(only))] if only else [])

    ctx.kind("wide", wide)
    for k, f in (("list", listed), ("check", checked), ("find", found),
                 ("usage", usage), ("real", real)):
        ctx.kind(k, f)

    orders = [order_cases(ctx, "list-symbols", [["order.argus"], ["order2.argus", "order.argus"]]),
              order_cases(ctx, "check-symbols", [["order.argus"], ["order2.argus", "order.argus"]]),
              order_cases(ctx, "find-symbols", [[q] + f for q in ("ALPHA", "A", "XX")
                                     for f in (["order.argus"],
                                               ["order2.argus",
                                                "order.argus"])])]

    def run():
        n = 0
        for o in orders:
            o()
        al = "ABaECcTt12Ll*pqnzSD"
        codes = ["".join(t) for d in (0, 1, 2) for t in
                 itertools.product(al, repeat=d)]
        if ctx.wide:
            codes += ["".join(t) for t in
                      itertools.product(al if ctx.deep else "ABECT2lp",
                                        repeat=3)]
        else:
            codes += ["".join(t) for t in
                      itertools.product("ACT2l", repeat=3)]
        for c in codes:
            fs = [["a.argus", c]]
            ctx.case("list", fs)
            ctx.case("check", [fs, True])
            ctx.case("check", [fs, False])
            ctx.case("find", ["ALPHA", fs, None])
            n += 4
            for sym, opt in (("AL", "-b"), ("A", "-e"), ("BETA", "-f"),
                             ("BETA", "-x"), ("AL", None), ("TA", "-e"),
                             ("ALPHA", "-b"), ("ALPHA", "-e"), ("LP", "-b"),
                             ("alpha", None), ("", "-b"), ("BETA", "-D")):
                if ctx.wide or len(c) < 2 or opt != "-f" and \
                        (n // 5) % 3 == 0:
                    ctx.case("find", [sym, fs, opt])
                n += 1
        for h in herds(300):
            fs = [["a.argus", h[:200]], ["d/b.argus", h[200:]]]
            ctx.case("list", fs)
            ctx.case("check", [fs, True])
            ctx.case("find", ["T1", fs, "-b"])
            ctx.case("find", ["7", fs, "-e"])
            n += 300
        for c1, c2 in itertools.product(KINDS, repeat=2):
            fs = [["a.argus", c1], ["b.argus", c2]]
            ctx.case("list", fs)
            ctx.case("check", [fs, n % 2 == 0])
            if c1 in "A2ClB":
                ctx.case("find", ["ALPHA", fs, None])
            n += 3
        for h in herds(300):
            fs = [["a.argus", "B2A"], ["d/b.argus", h]]
            ctx.case("list", fs)
            ctx.case("check", [fs, True])
            ctx.case("find", ["T1", fs, "-b"])
            n += 300
        pair = ["A", "C", "l", "2A", "AB", "T", "Aa", ""]
        for p in (("a.argus", "b.argus"), ("./a.argus", "d/b.argus"),
                  ("./a.argus", "./b.argus"), ("a.x.argus", "a.y.argus")):
            for c1 in pair:
                for c2 in pair:
                    fs = [[p[0], c1], [p[1], c2]]
                    ctx.case("list", fs)
                    ctx.case("check", [fs, True])
                    ctx.case("find", ["ALPHA", fs, None])
                    n += 3
        some = ["A", "l", "C", "J", "B", "2C", ""]
        for c in list(itertools.product(some, repeat=3)) + list(
                itertools.product(some if ctx.deep else some[:4],
                                  repeat=4)):
            fs = [["f%d.argus" % i, x] for i, x in enumerate(c)]
            ctx.case("check", [fs, True])
            ctx.case("list", fs)
            ctx.case("find", ["ALPHA", fs, None])
            n += 3
        # included definitions, comments, and many symbols and errors
        fl = []
        for d in (1, 2, 3):
            for t in itertools.product("$#A2Ca%", repeat=d):
                if set("$#%") & set(t):
                    fl.append([["a.argus", "".join(t)]])
        for c1 in ("$", "A", "$A", "2$", "#a", "B", "%"):
            for c2 in ("$", "A", "a$", "", "C", "%", "$%"):
                fl.append([["a.argus", c1], ["d/b.argus", c2]])
        for k in (8, 9, 10, 11, 12, 30):
            fl += [[["a.argus", SA[:k]]], [["a.argus", SC[:k]]],
                   [["a.argus", SA[:k] + SC[:k]]],
                   [["a.argus", SC[:k]], ["b.argus", SA[:k]]],
                   [["a.argus", SA[:k]], ["b.argus", SA[-k:]]],
                   [["a.argus", "A" * k]], [["a.argus", "A" + "l" * k]],
                   [["a.argus", "2" + SA[:k] + "1" + SC[:k] + "0AB"]],
                   [["f%d.argus" % i, ("A", "B", "l", "C")[i % 4]]
                    for i in range(k)]]
        # segments and subsegments first seen in another order
        for t in itertools.permutations("A2a1", 4):
            for t2 in ("", "0A", "1B"):
                fl.append([["a.argus", "".join(t) + t2]])
        for c in ("2A1A", "2A0A", "2A1A0A", "sA2A1A0A", "2C1A", "2A1C"):
            fl.append([["a.argus", c]])
            fl.append([["z.argus", c], ["a.argus", c]])
        for names in (("a.argus",) * 2, ("a.argus",) * 3,
                      ("a.argus", "b.argus", "a.argus"),
                      ("b.argus", "b.argus", "a.argus", "a.argus")):
            for c in ("A", "AB", "C", "l", "T", "E", "$", "", "2A1C"):
                fl.append([[x, c] for x in names])
        for i, nm in enumerate(NAMES):
            if "'" in nm or "\\" in nm:
                continue
            for c in ("AB", "C", "l2a", "$"):
                fl.append([[nm, c]])
            fl.append([["a.argus", "A"], [nm, "Bl"]])
        for names in itertools.permutations(["c.argus", "a.argus",
                                             "d/b.argus"]):
            for c in ("A", "AB", "C", "l"):
                fl.append([[x, c] for x in names])
        for k in (999, 9999, 65536, 99999):
            for c in ("A", "2AB", "l"):
                ctx.case("list", [["a.argus", "#" * k + c]])
                ctx.case("check", [[["a.argus", "#" * k + c]], True])
                ctx.case("find", ["ALPHA", [["a.argus", "#" * k + c]], None])
                n += 3
        for k in (51, 100, 130, 300):
            fs = [["f%d.argus" % i, "ABlC"[i % 4]] for i in range(k)]
            ctx.case("list", fs)
            ctx.case("check", [fs, True])
            ctx.case("find", ["ALPHA", fs, None])
            n += 3
        for k in (120, 300, 1100):
            for kind, tail in (("DEC", ""), ("ASSIGN", ""), ("ASSIGN", "A"),
                               ("DEC", "C")):
                ctx.case("wide", [k, kind, tail])
                n += 6
        for k in (99, 100, 101):
            fl += [[["a.argus", "A" * k + "B"]], [["a.argus", "#" * k + "C"]],
                   [["a.argus", "l" * k], ["b.argus", "l" * k]]]
        for x, codes in zip(MARKS, ODD):
            for c in ("".join(codes), codes[0], codes[0] + "A", codes[2] +
                      codes[3], codes[3] + "AB", "A" + codes[1] + codes[5]):
                fs = [["a.argus", c]]
                ctx.case("list", fs)
                ctx.case("check", [fs, True])
                for t in (x, "A" + x + "B", x + "AB", "AB" + x, x + x):
                    if t[0] != "-" and "'" not in t and "\\" not in t:
                        for opt in (None, "-b", "-e"):
                            ctx.case("find", [t, fs, opt])
                n += 17
        for fs in fl:
            ctx.case("list", fs)
            ctx.case("check", [fs, True])
            ctx.case("check", [fs, False])
            ctx.case("check", [fs, "--complex"])
            for sym, opt in (("ALPHA", None), ("A", "-b"), ("A", "-e"),
                             ("S", "-b"), ("X", "-e"), ("S37X", None),
                             ("S37X", "-f"), ("Q37", "-f"), ("Q37", "-x")):
                ctx.case("find", [sym, fs, opt])
            n += 12
        for fs in ([["a.argus", "AB"]], [["a.argus", "C"]],
                   [["a.argus", "ABECcTt"], ["b.argus", "Aa2Ll"]]):
            for base in ("ALPHA", "BETA", "GAMMA"):
                asked = {base[i:j] for i in range(6) for j in range(i, 6)}
                asked |= {base.lower(), base.title(), base + "S",
                          "S" + base, " " + base, base + " ", "F," + base,
                          base + ",", base + ",1", "X " + base, base * 2,
                          "^" + base, base + "$", "*", "A*", "?", ".",
                          base + "\t", "None", "0"}
                for sym in sorted(asked - {""}):
                    for opt in (None, "-x", "-b", "-e", "-D"):
                        ctx.case("find", [sym, fs, opt])
                        n += 1
            for sym, opt in (("AL", "-D-b"), ("A", "-D-e"), ("BETA", "-D-f"),
                             ("ALPHA", "-x-D"), ("BETA", "-D-x"),
                             ("AL", "-v-b"), ("A", "-v-e"), ("BETA", "-v-f"),
                             ("ALPHA", "-v-x"), ("AL", "-v-x"),
                             ("ALPHA", "-v-D")):
                ctx.case("find", [sym, fs, opt])
                n += 1
            for sym, opt in (("AL", "--begin"), ("A", "--end"),
                             ("BETA", "--fuzzy"), ("ALPHA", "--exact"),
                             ("AL", "--exact"), ("ALPHA", "--details")):
                ctx.case("find", [sym, fs, opt])
                n += 1
        ctx.count(states=n, transitions=n, traces=n)
        for tool in ("list-symbols", "check-symbols", "find-symbols"):
            for args in ([], ["no-such.argus"]) if tool != "find-symbols" \
                    else ([], ["A"], ["A", "no-such.argus"],
                          ["-b", "-e", "A", "a.argus"],
                          ["-b", "-x", "A", "a.argus"],
                          ["-e", "-x", "A", "a.argus"],
                          ["-f", "-b", "A", "a.argus"],
                          ["-f", "-e", "A", "a.argus"],
                          ["-f", "-x", "A", "a.argus"]):
                ctx.case("usage", [tool, args])
                ctx.count(transitions=1, traces=1)
        ctx.case("real", ["list-symbols", ["a.argus"], "AB2aC"])
        ctx.case("real", ["check-symbols", ["-c", "a.argus"], "ACl"])
        ctx.case("real", ["find-symbols", ["-b", "AL", "a.argus"], "AB"])
        ctx.count(transitions=3, traces=3)
        ctx.sample({"deck": "A2a", "cards": [KINDS[k] for k in "A2a"]})
        ctx.bounds = {"cards per deck": "2 over %d kinds, 3 over %d" %
                      (len(al), 8 if ctx.wide else 5)}
    return run


# ---- C22 genlines ---------------------------------------------------------

def genlines(ctx):
    os.chdir(ctx.scratch())

    def model(args):
        start, end = int(args[0]), int(args[1])
        step = int(args[2]) if len(args) > 2 else 1
        scol = int(args[3]) if len(args) > 3 else 2
        ecol = int(args[4]) if len(args) > 4 else 7
        width = max(4, len(str(end)), len(args[1]))
        out = []
        i = start
        while i <= end:
            out.append((scol, str(i).rjust(width, "0"), ecol, width))
            i += step
        return out

    def gen(args):
        st, out, err = tools.run("genlines", args)
        label = "genlines %s" % " ".join(args)
        expect(label + " exit", st, 0)
        got = out.split("\n")
        if got[-1] == "":
            got.pop()
        want = model(args)
        expect(label + " number of lines", len(got), len(want))
        for g, (scol, num, ecol, width) in zip(got, want):
            expect(label, g.rstrip(), " " * (scol - 1) + num)
            expect(label + " line length", len(g),
                   max(ecol + 1, scol - 1 + width))

    def bad(args):
        st, out, err = tools.run("genlines", args)
        if st == 0 or out:
            fail("genlines %s: exit %d, printed %r", args, st, out[:40])

    def field(args):
        """What it prints reads back as the card number field."""
        ac = import_repo("h800.arguscard")
        st, out, err = tools.run("genlines", args)
        for g, w in zip(lines_of(out), model(args)):
            expect("card number", ac.Card(g).lognum, w[1])

    def real(args):
        a, b = tools.run("genlines", args), tools.run_process("genlines",
                                                              args)
        if a[:2] != b[:2]:
            fail("in-process and real runs differ")

    for k, f in (("gen", gen), ("bad", bad), ("field", field),
                 ("real", real)):
        ctx.kind(k, f)

    def run():
        n = 0
        hi = 110 if ctx.deep else 45
        for s in range(0, hi):
            for e in range(0, hi):
                for step in range(1, 8):
                    ctx.case("gen", [str(s), str(e), str(step)])
                    n += 1
                ctx.case("gen", [str(s), str(e)])
                n += 1
        edge = ["0", "9", "10", "99", "100", "999", "1000", "9999", "10000",
                "99999", "100000", "999999", "0001", "0010", "000010",
                "00100", "000000"]
        for s in edge:
            for e in edge:
                span = int(e) - int(s)
                for step in (1, 10, 100, 7, 1000, 99999):
                    if span // step > (11000 if ctx.wide else 1100):
                        continue
                    ctx.case("gen", [s, e, str(step)])
                    ctx.case("field", [s, e, str(step)])
                    n += 2
        for s, e, st in (("8", "12", "2"), ("0998", "1001", "1"),
                         ("99990", "100010", "10"), ("5", "4", "1"),
                         ("7", "7", "3"), ("000001", "000003", "1")):
            for sc in range(1, 22):
                for ec in range(sc, 26):
                    ctx.case("gen", [s, e, st, str(sc), str(ec)])
                    n += 1
                ctx.case("gen", [s, e, st, str(sc)])
                n += 1
        for sc in (1, 9, 10, 72, 80, 99, 100, 119, 120):
            for ec in (sc, sc + 1, sc + 5, sc + 20, 120, 130):
                ctx.case("gen", ["8", "12", "2", str(sc), str(ec)])
                n += 1
        for s, e, st in (("1", "9999", "1"), ("1", "99999", "10"),
                         ("0", "5000", "5"), ("999000", "999999", "1"),
                         ("0", "999999", "1000"), ("1", "2000", "1999"),
                         ("1", "2000", "2000"), ("123456", "123456", "1"),
                         ("1", "70000", "1"), ("0", "999999", "1")):
            ctx.case("gen", [s, e, st])
            ctx.case("field", [s, e, st])
            n += 2
        # steps and columns with leading zeros
        for st in ("01", "0010", "010", "0012", "00100", "07", "08"):
            for s, e in (("0010", "0100"), ("1", "30"), ("0", "000777")):
                ctx.case("gen", [s, e, st])
                for sc, ec in (("02", "07"), ("002", "0010"), ("010", "020")):
                    ctx.case("gen", [s, e, st, sc, ec])
                    n += 1
                n += 1
        for a in ([], ["1"], ["1000000", "2"], ["1", "1000000"],
                  ["0000001", "2"], ["1", "0000002"], ["0000000", "1"],
                  ["1234567", "1234568"], ["1", "9999999"],
                  ["1000000", "2000000", "10"], ["1", "1000000", "1", "2"],
                  ["0000001", "0000002", "1", "2", "7"]):
            ctx.case("bad", a)
            n += 1
        ctx.case("real", ["0010", "0100", "10"])
        ctx.count(states=n, transitions=n, traces=n)
        ctx.sample({"args": ["000010", "1000", "100"]})
        ctx.bounds = {"start, end": "0..%d x steps 1..7, decade edges" % hi,
                      "columns": "1..25, selected up to 130"}
        ctx.assumptions = ["steps are positive"]
    return run


# ---- C23 genpages ---------------------------------------------------------

def genpages(ctx):
    os.chdir(ctx.scratch())
    HEAD = {
        "L": "L      @LOG SECTION ONE",
        "l": "L       BLANK EIGHT",
        "m": "L 0010 TSECOND",
        "F": "# Filename: SOME_FILE_NAME.argus",
        "f": "# Filename: PLAIN",
        "g": "# Filename: A.B.C",
        "c": "# other comment",
        "x": put(c2="000010", c20="BA"),
        "e": "",
        "M": "L       " + "LONG SECTION NAME " * 3 + "END",
        "N": "L      @" + "X" * 72,
        "G": "# Filename: VERY_LONG" + "_NAME" * 12 + ".argus",
        "b": put(c2="000020", c9="NAME", c20="TX") + "   ",
        "w": "   ",
        "R": put(c1="R", c9="# Pages: 77-78"),
        "P": "# Pages:9",
        "h": "# Pages of text",
        "1": "# Page 1", "3": "# Page 3", "9": "# Page 9", "0": "# Page 10",
        "H": "#      @LOG SECTION ONE" + " " * 60 +
             "USER'S OWN PAGE NO.   1        PAGE   1",
        "Q": "# Page", "q": "# PAGES: 5-6", "k": " # Pages: 5-6",
        "K": "#Pages: 5-6",
    }

    # names of every length up to the 72 columns of a heading, and with
    # blanks, digits and special characters inside
    names = ["A" * k for k in range(1, 73)] + \
        [("AB " * 24)[:k].strip() for k in range(4, 73)] + \
        ["A  B", "A   B  C", "P 1", "1", "12-14", "PAGE 7", "A%B", "100%",
         "%s", "%d PER", "{0}", "A{B}", "A\\nB", "A'S", 'A"B', "A.B", "A,B",
         "A_B", "__A__", "A/B", "A-B", "# A", "A # B", "$X", "*", "(A)",
         "Filename: X", "USER'S OWN PAGE NO. 3", "lower case", "A\tB", "@",
         "@A", "0", "L", "L L", "A;B", "\u00e9"]
    LNAMES = "".join(chr(0xE000 + i) for i in range(len(names)))
    FNAMES = ""
    for i, x in enumerate(names):
        HEAD[LNAMES[i]] = "L%-6s%s%s" % ("", " @TA"[i % 4], x)
        if " " not in x and "\t" not in x and not x.startswith("."):
            FNAMES += chr(0xF000 + i)
            HEAD[FNAMES[-1]] = "# Filename: %s%s" % (
                x, ("", ".argus", ".a.b")[i % 3])
    # more after the name, several names, other forms of the comment
    for x in ("A_B.src was: OLD.src", "A.x B.x", "A # Pages: 3", "A -",
              " TWO", "A.x: B", "A:B C", "A\tB", "A L", "A Filename: B",
              "A_B (copy)", "A B.x", "A.x 1-3", "DIR/A.x B", "A=B, C.D"):
        FNAMES += chr(0xF600 + len(FNAMES))
        HEAD[FNAMES[-1]] = "# Filename: " + x
    FREE = ""
    for x in ("#Filename: NO", "# filename: NO", "# Filename:NO",
              " # Filename: NO", "# File: NO", "# Filename NO",
              "## Filename: NO", "# The Filename: NO", "#  Filename: NO",
              "# Filename\t: NO"):
        FREE += chr(0xF800 + len(FREE))
        HEAD[FREE[-1]] = x
    HEAD["\uf700"] = "L      @"
    LOG = {ch for ch in HEAD if HEAD[ch].startswith("L")}
    NAMED = {ch for ch in HEAD if HEAD[ch].startswith("# Filename: ")}
    CARDS = {ch for ch in HEAD if not HEAD[ch].startswith("#")}

    def section(code):
        for ch in code:
            if ch in LOG:
                t = HEAD[ch]
                return t[7], t[8:].strip()
        for ch in code:
            if ch in NAMED:
                name = HEAD[ch].split()[2].split(".")[0]
                return "@", name.replace("_", " ")
        return None

    def gen(arg):
        code, pages = arg[:2]
        many = pages if isinstance(pages, (list, tuple)) else \
            [pages] * code.count("p")
        left = list(many)
        text = "".join((HEAD[ch] if ch != "p" else
                        "# Pages: " + left.pop(0)) + "\n" for ch in code)
        if len(arg) > 2 and arg[2]:
            text = text.rstrip("\n")
        name = arg[3] if len(arg) > 3 else "f.argus"
        for f in list(tools.snapshot()):
            os.remove(f)
        if "/" in name:
            os.makedirs(name.split("/")[0], exist_ok=True)
        eol = arg[4] if len(arg) > 4 else "\n"
        given, real = name, name
        if len(arg) > 5:
            real = "real.txt"
            if arg[5] == "deep":
                os.symlink(real, "middle")
            os.symlink("middle" if arg[5] == "deep" else os.path.abspath(real)
                       if arg[5] == "full" else real, name)
        with open(real, "w", newline="") as f:
            f.write(text.replace("\n", eol))
        raw = open(real, "rb").read()
        st, out, err = tools.run("genpages", [name])
        if not open(real, "rb").read().startswith(raw):
            fail("genpages of %r: existing bytes changed", code)
        if len(arg) > 5:
            if not os.path.islink(given):
                fail("genpages replaced the link to the source by a file")
            os.unlink(given)
            os.path.lexists("middle") and os.unlink("middle")
            if list(tools.snapshot()) != [real]:
                fail("genpages left %r", list(tools.snapshot()))
            os.rename(real, given)
        now = open(name).read()
        if eol != "\n":
            with open(name, "w") as f:
                f.write(now)
        name = os.path.normpath(name)
        label = "genpages of %r, pages %s" % (code, pages)
        sec = section(code)
        lo, hi = None, None
        if "p" in code:
            a = many[-1].split()[0].split("-")  # the last one counts
            lo, hi = int(a[0]), int(a[-1])
        if sec is None or lo is None or lo > hi:
            if st == 0:
                fail("%s: reports success", label)
            if now != text:
                fail("%s: file changed although refused", label)
            unchanged({name: text.encode()}, label)
            return
        expect(label + " exit", st, 0)
        if not now.startswith(text):
            fail("%s: existing contents changed", label)
        new = lines_of(now[len(text):])
        body = [ln for ln in new if ln.strip()]
        if not body:
            fail("%s: nothing added", label)
        expect(label + " log card", body[0].rstrip(),
               ("L      %s%s" % sec).rstrip())
        rest = body[1:]
        expect(label + " added lines", len(rest), 2 * (hi - lo + 1))
        for k, p in enumerate(range(lo, hi + 1)):
            expect(label + " page comment", rest[2 * k].rstrip(),
                   "# Page %d" % p)
            if len(rest[2 * k + 1]) > 240:
                fail("%s: heading of %d characters", label,
                     len(rest[2 * k + 1]))
            g = rest[2 * k + 1]
            m = re.match(r"^#      (.)(.*?) +USER'S OWN PAGE NO\. *(\d+) +"
                         r"PAGE *(\d+)$", g)
            if not m:
                fail("%s: malformed heading %r", label, g)
            expect(label + " heading", (m.group(1), m.group(2).strip(),
                                        int(m.group(3)), int(m.group(4))),
                   (sec[0], sec[1].strip(), k + 1, k + 1))
        # the file still reads as the same deck, plus the log card
        ac = import_repo("h800.arguscard")
        d = ac.Deck(file=name)
        kept = [ch for ch in code if ch in CARDS]
        expect(label + " cards kept",
               [c.line for c in d.cards[:len(kept)]],
               [HEAD[ch] for ch in kept])
        expect(label + " log cards after",
               [c.line.rstrip() for c in d.cards if c.line[:1] == "L"],
               [HEAD[ch].rstrip() for ch in code if ch in LOG] +
               [body[0].rstrip()])
        for c in d.cards[len(kept):]:
            if c.line.strip() and c.line[:1] != "L":
                fail("%s: new card %r in the deck", label, c.line)
        expect(label + " log section after", d.log_section,
               sec[1].strip())
        expect(label + " column 8 after", d.log_section_col8,
               sec[0].strip() or None)
        unchanged({name: now.encode()}, label)
        # once more: the same headings again, after all the rest
        st, out, err = tools.run("genpages", [name])
        expect(label + " second exit", st, 0)
        then = open(name).read()
        if not then.startswith(now):
            fail("%s: second run changed the existing contents", label)
        expect(label + " second run", [x[:8].split() + x[8:].split() for x in
               lines_of(then[len(now):]) if x.strip()],
               [x[:8].split() + x[8:].split() for x in body])

    def usage(args):
        st, out, err = tools.run("genpages", args)
        if st == 0:
            fail("genpages %s reports success", args)
        if os.path.exists("missing.argus"):
            fail("genpages created a missing file")

    ctx.kind("gen", gen)
    ctx.kind("usage", usage)
    orders = [order_cases(ctx, "genpages", [["order3.argus"]])]

    def run():
        n = 0
        for o in orders:
            o()
        pages = ["1", "7", "1-1", "1-3", "9-11", "99-101", "3-2", "12-9",
                 "998-1002", "0-2"]
        al = "LlmFfgcxep"
        for d in range(0, 4):
            for t in itertools.product(al, repeat=d):
                code = "".join(t)
                if code.count("p") > 1:
                    continue
                for p in (pages if d <= 2 and "p" in code else
                          [pages[n % len(pages)]]):
                    ctx.case("gen", [code, p])
                    n += 1
        # the same without the newline at the end of the file
        for d in range(1, 4):
            for t in itertools.product(al + "b", repeat=d):
                code = "".join(t)
                if code.count("p") == 1 and code[-1] not in "ew":
                    ctx.case("gen", [code, pages[n % len(pages)], 1])
                    n += 1
        for ch in LNAMES + FNAMES + FREE + "\uf700":
            for code in (ch + "p", "p" + ch, "x" + ch + "pc", ch + "Lp",
                         "L" + ch + "p", ch + "Fp", "F" + ch + "p",
                         "px" + ch, ch + "xp"):
                for p in ("1-2", "9-11") if ctx.deep else \
                        (pages[n % len(pages)],):
                    ctx.case("gen", [code, p])
                    n += 1
        # several page-range comments, in every arrangement
        some = ["4", "1-3", "9-11", "3-2", "7-7", "4-4"]
        for p in itertools.product(some, repeat=2):
            for code in ("Lpp", "ppL", "pLp", "pFp", "Fpp", "pxpl", "pp",
                         "pcpf", "LpLp"):
                ctx.case("gen", [code, list(p)])
                n += 1
        for p in itertools.product(some[:4], repeat=3):
            for code in ("Lppp", "pLpFp", "pppf"):
                ctx.case("gen", [code, list(p)])
                n += 1
        # page ranges as they may be written
        for p in ("3-4 (of 9)", "  3-4", "   7", "7 only", "3-4  ", "003-004",
                  "3-4\t", "\t3-4", "3-4, 9", "03", "3-4 5-6", "8 9", "9-11 #",
                  "3-3 x", "5-4 6-7"):
            if p == "3-4, 9":
                continue
            for code in ("Lp", "pF", "pxL", "Fpc", "lp", "p", "LpF"):
                ctx.case("gen", [code, p])
                n += 1
            for q in ("1-2", "3-2", "5"):
                ctx.case("gen", ["Lpp", [p, q]])
                ctx.case("gen", ["pFp", [q, p]])
                n += 2
        # page comments and headings that are there already
        for d in (1, 2, 3):
            for t in itertools.product("1390HQqkK", repeat=d):
                code = "".join(t)
                for c in ("Lp" + code, code + "pL", "Fp" + code + "x"):
                    for p in ("1-3", "9-11") if d < 3 else \
                            (pages[n % len(pages)],):
                        ctx.case("gen", [c, p])
                        n += 1
        # longer names and other kinds of line, alone and together
        extra = "MNGbwRPh"
        for d in (1, 2):
            for t in itertools.product(extra + "LF", repeat=d):
                for code in {"".join(t) + "p", "p" + "".join(t),
                             t[0] + "p" + "".join(t[1:])}:
                    for p in ("3", "9-11", "5-4"):
                        ctx.case("gen", [code, p])
                        n += 1
        for p in ("1-99", "1-100", "1-101", "1-1500", "1-12000", "37-1099",
                  "999-10001"):
            for code in ("Lp", "pF"):
                ctx.case("gen", [code, p])
                n += 1
        for lo in range(1, 13):
            for hi in range(1, 13):
                for code in ("Lp", "pF", "lp"):
                    ctx.case("gen", [code, "%d-%d" % (lo, hi)])
                    n += 1
        for p in ("1-100", "90-110", "1-999", "1-1000", "1-1200",
                  "9990-10010", "99999-100001"):
            for code in ("Lp", "pFx", "lcp", "bpM"):
                ctx.case("gen", [code, p])
                n += 1
        if ctx.wide:
            for t in itertools.permutations(al, 4):
                if "p" in t:
                    for p in pages:
                        ctx.case("gen", ["".join(t), p])
                        n += 1
            for t in itertools.product(al + extra, repeat=3):
                for k in range(4):
                    code = "".join(t[:k]) + "p" + "".join(t[k:])
                    if code.count("p") == 1:
                        ctx.case("gen", [code, pages[n % len(pages)]])
                        n += 1
        if ctx.deep:
            for t in itertools.product(al, repeat=4):
                for k in range(5):
                    code = "".join(t[:k]) + "p" + "".join(t[k:])
                    if code.count("p") == 1:
                        ctx.case("gen", [code, pages[n % len(pages)]])
                        n += 1
        for nm in NAMES:
            for code in ("Lp", "pFx", "xp", "lcpe"):
                ctx.case("gen", [code, "9-11", 0, nm])
                n += 1
        # large sources
        for k in (100, 1000, 10001, 70001):
            for code in ("Lp" + "x" * k, "x" * k + "pL", "c" * k + "Fp",
                         "x" * k + "p" + "c" * k, "L" + "e" * k + "p",
                         "p" + "w" * k + "F", "M" + "b" * k + "p"):
                ctx.case("gen", [code, "9-11"])
                n += 1
        # other line ends, and sources reached through a link
        for t in itertools.chain(*(itertools.product("LlFfcxep", repeat=k)
                                   for k in (1, 2, 3))):
            code = "".join(t)
            if code.count("p") > 1:
                continue
            for eol in ("\r\n", "\r"):
                ctx.case("gen", [code, pages[n % len(pages)], n % 3 == 0 and
                                 code[-1] != "e", "f.argus", eol])
                n += 1
            if len(t) < 3:
                for how in ("one", "deep", "full"):
                    for p in ("1-3", "3-2"):
                        ctx.case("gen", [code, p, 0, "f.argus", "\n", how])
                        n += 1
        ctx.case("usage", [])
        ctx.case("usage", ["missing.argus"])
        ctx.count(states=n, transitions=2 * n, traces=n)
        ctx.sample({"header": [HEAD[c] for c in "Fc"], "pages": "9-11"})
        ctx.bounds = {"header lines": "up to %d over %d kinds, 2 over %d "
                      "more" % (4 if ctx.deep else 3, len(al), len(extra)),
                      "page ranges": pages}
    return run


# ---- C24 listing ----------------------------------------------------------

def listing(ctx):
    os.chdir(ctx.scratch())
    os.makedirs("d.x")

    def compare(text, want, label):
        """What is wrong with the listing, if anything."""
        got = text.split("\n")
        if got[-1] == "":
            got.pop()
        if len(got) != len(want):
            return "%s: %d lines, expected %d" % (label, len(got), len(want))
        for g, (f, n, t) in zip(got, want):
            if len(g) < len(t) or g[len(g) - len(t):] != t or \
                    [x.strip() for x in g[:len(g) - len(t)].rsplit(
                        None, 1)] != [f, str(n)]:
                return "%s: %r, expected %s %d %r" % (label, g, f, n, t)

    def including(arg):
        """Includes of any name: only the named sources get a listing."""
        name, incs = arg
        for f in list(tools.snapshot()):
            os.remove(f)
        want = [(name, 1, SRC["a"])]
        for i in incs:
            write(i, "qt"[len(i) % 2])
            want.append((i, 1, SRC["qt"[len(i) % 2]]))
        want.append((name, len(incs) + 2, SRC["b"]))
        with open(name, "w") as f:
            f.write("\n".join([SRC["a"]] + ["$ " + i for i in incs] +
                              [SRC["b"], ""]))
        before = tools.snapshot()
        label = "listing of %s including %s" % (name, incs)
        p = os.path.splitext(name)[0] + ".lst"
        for args in ([name], ["-v", name], [name] * 2, ["./" + name]):
            st, out, err = tools.run("listing", args)
            expect(label + " exit", st, 0)
            unchanged(before, label, {os.path.normpath(p)})
            why = compare(open(p).read(), [(args[-1] if f == name else f, n,
                                            t) for f, n, t in want], label)
            if why:
                fail("%s", why)

    def lst(arg):
        files, verbose = arg[:2]
        for f in list(tools.snapshot()):
            os.remove(f)
        write("inc.argus", INC)
        write("inc/inc.argus", INC2)
        if len(arg) > 2:        # stale listings of an earlier run
            for name, code in files:
                with open(os.path.splitext(name)[0] + ".lst", "w") as f:
                    f.write("stale\n" * arg[2])
        for name, code in files:
            write(name, code)
        before = tools.snapshot()
        st, out, err = tools.run("listing", (["-v"] if verbose else []) +
                                 [n for n, _ in files])
        label = "listing of %r" % files
        expect(label + " exit", st, 0)
        made = {}
        for name, code in files:
            made.setdefault(os.path.splitext(name)[0] + ".lst",
                            []).append(expand(name, code))
        norm = {os.path.normpath(p) for p in made}
        unchanged(before, label, norm)
        for p, wants in made.items():
            if not os.path.exists(p):
                fail("%s: %s not written", label, p)
            got = open(p).read()
            # of two sources that share a listing, it is that of either
            whys = [why for why in (compare(got, w, label) for w in wants)]
            if all(whys):
                fail("%s", whys[-1])

    def nested(depth):
        """A chain of includes: each file names itself on its lines."""
        for f in list(tools.snapshot()):
            os.remove(f)
        want = []
        for k in range(depth):
            with open("n%d.argus" % k, "w") as f:
                f.write("%s\n" % SRC["q"])
                if k + 1 < depth:
                    f.write("$ n%d.argus\n" % (k + 1))
                f.write("%s\n" % SRC["a"])
            want.insert(k, ["n%d.argus" % k, "1", SRC["q"]])
        for k in reversed(range(depth)):
            want.append(["n%d.argus" % k, "3" if k + 1 < depth else "2",
                         SRC["a"]])
        before = tools.snapshot()
        st, out, err = tools.run("listing", ["n0.argus"])
        expect("exit", st, 0)
        unchanged(before, "listing", {"n0.lst"})
        got = [re.match(r"(\S+) +(\d+) +(.*)$", ln, re.S)
               for ln in open("n0.lst").read().split("\n")[:-1]]
        expect("nested listing", [[m.group(1), m.group(2), m.group(3)]
                                  for m in got],
               [[f, n, t.lstrip()] for f, n, t in want])

    def usage(args):
        for f in list(tools.snapshot()):
            os.remove(f)
        st, out, err = tools.run("listing", args)
        if st == 0:
            fail("listing %s reports success", args)

    def twice(arg):
        lst([arg, False])
        first = tools.snapshot()
        tools.run("listing", [n for n, _ in arg])
        if tools.snapshot() != first:
            fail("second listing of %r differs", arg)
        tools.run("listing", ["-v"] + [n for n, _ in arg])
        if tools.snapshot() != first:
            fail("second listing of %r differs", arg)

    def again(arg):
        """Sources that change between listings, with any file times."""
        for f in list(tools.snapshot()):
            os.remove(f)
        for step, (code, inc, when) in enumerate(arg):
            with open("i.argus", "w") as f:
                f.write("".join(SRC[c] + "\n" for c in inc))
            with open("m.argus", "w") as f:
                f.write("".join(SRC[c] + "\n" for c in code) +
                        "$ i.argus\n")
            for f, t in zip(("m.argus", "i.argus", "m.lst"), when):
                if os.path.exists(f) and t is not None:
                    os.utime(f, (t, t))
            st, out, err = tools.run("listing", ["m.argus"])
            expect("exit", st, 0)
            want = [("m.argus", i, SRC[c]) for i, c in enumerate(code, 1)] + \
                [("i.argus", i, SRC[c]) for i, c in enumerate(inc, 1)]
            got = open("m.lst").read().split("\n")[:-1]
            expect("lines of listing %d of %r" % (step, arg), len(got),
                   len(want))
            for g, (f, n, t) in zip(got, want):
                if g.split()[:2] != [f, str(n)] or not g.endswith(t):
                    fail("listing %d of %r: %r, expected %s %d %r", step,
                         arg, g, f, n, t)

    for k, f in (("list", lst), ("usage", usage), ("twice", twice),
                 ("nested", nested), ("again", again),
                 ("including", including)):
        ctx.kind(k, f)

    orders = [order_cases(ctx, "listing", [["order.argus"], ["order2.argus", "order.argus"]])]

    def run():
        n = 0
        for o in orders:
            o()
        for d in range(0, 4):
            for t in itertools.product("abt?*rcein%qBWTUgp", repeat=d):
                ctx.case("list", [[["m.argus", "".join(t)]], n % 4 == 0])
                n += 1
        if ctx.deep:
            for t in itertools.product("abt?*rcei%qBW", repeat=4):
                ctx.case("list", [[["m.argus", "".join(t)]], False])
                n += 1
        for h in herds(100):
            ctx.case("list", [[["m.argus", h]], False])
            n += 100
        for k in (9, 10, 99, 100, 101, 1001, 10001, 65537, 100001):
            for unit in ("a", "rq", "cW", "ia"):
                if k < 10001 or unit == "a":
                    for v in (False, True):
                        ctx.case("list", [[["m.argus", unit * k]], v])
                        n += 1
        for stem in (1, 8, 40, 63, 64, 65, 100, 200):
            ctx.case("list", [[["f" * stem + ".argus", "aqi"]], False])
            ctx.case("list", [[["f" * stem, "aqi"], ["m.argus", "b"]],
                              False])
            n += 2
        for k in (1, 9, 50, 100, 1000, 3000):
            ctx.case("twice", [["m.argus", "aqi" * k]])
            ctx.case("twice", [["m.argus", "a" * k], ["n.argus", "z" * k]]
                     if "z" in SRC else [["m.argus", "q" * k], ["n", "ci"]])
            n += 2
        for stale in (1, 100, 1000, 100000):
            for code in ("", "a", "ci"):
                ctx.case("list", [[["m.argus", code]], False, stale])
                n += 1
        for k in list(range(2, 13)) + [51, 100, 130, 300]:
            for v in (False, True):
                ctx.case("list", [[["f%d.argus" % i, "aqb"[i % 3] * (i % 4)]
                                   for i in range(k)], v])
                n += 1
        for depth in list(range(1, 12)) + [60]:
            ctx.case("nested", depth)
            n += 1
        old, new = 10 ** 9, 4 * 10 ** 9
        some = [(c, i, w) for c in ("", "a", "b?") for i in ("", "t")
                for w in ((None, None, None), (old, old, None),
                          (old, old, new), (new, old, old))]
        for t in itertools.product(some, repeat=2):
            ctx.case("again", list(t))
            n += 2
        for t in itertools.product(some[::3], repeat=3):
            ctx.case("again", list(t))
            n += 3
        for code in ("", "a", "ci"):
            for names in (("m.argus",) * 2, ("m.argus", "n.argus",
                                             "m.argus")):
                ctx.case("list", [[[x, code] for x in names], False])
                n += 1
        for i, nm in enumerate(NAMES):
            if not nm.endswith(".lst"):
                for c in ("", "a", "ci", "?i"):
                    ctx.case("list", [[[nm, c]], False])
                    ctx.case("list", [[["m.argus", c], [nm, "ab"]], False])
                    n += 2
        for names in (("m.argus", "n.argus"), ("noext", "m.argus"),
                      ("d.x/m.argus", "m.argus"), ("d.x/noext", "m.argus"),
                      ("./m.argus", "./n.argus"), ("a.b.argus", "a.argus"),
                      ("m.txt", "n.ARGUS"), ("a.argus.txt", "b.argusx"),
                      ("a.argus.argus", "a.txt"), ("d.x/a.txt", "d.x/b.s"),
                      ("a b.argus", "m.lst.argus"), ("m.", ".hidden"),
                      ("m.argus", "d.x/m.txt"), ("argus", "m.card"),
                      ("m.1", "n.a1"), ("a.argus~", "b.bak"),
                      ("A.ARGUS", "a.Argus"), ("m.1.2", "x-1.argus"),
                      ("m.a_b", "m b.c d"), ("m..argus", "..n.argus"),
                      ("d.x/.hid", "d.x/v1.0"), ("v1.0", "v1.1.argus"),
                      ("m.argusargus", "n.lst1"), ("%s.argus", "{}.argus"),
                      ("\u00e9.argus", "m.\u00e9")):
            for c1 in ("", "a", "ci", "ab?"):
                for c2 in ("", "t", "ei"):
                    ctx.case("list", [[[names[0], c1], [names[1], c2]],
                                      False])
                    ctx.case("twice", [[names[0], c1], [names[1], c2]])
                    n += 2
        # every kind of card in the one file and in the next
        for x, y in itertools.product("abt?*rcein%qBWTUgp", repeat=2):
            for v in (False, True):
                ctx.case("list", [[["m.argus", x], ["n.argus", y]], v])
                n += 1
        for h in herds(100):
            ctx.case("list", [[["m.argus", "a"], ["n.argus", h]], False])
            n += 100
        # sources of the same name but for the extension
        for names in (("m.argus", "m.txt"), ("m", "m.argus"),
                      ("m.txt", "m", "m.argus"), ("d.x/m.a", "d.x/m.b"),
                      ("m.a.b", "m.a.c"), ("m.argus", "n.argus", "m.txt")):
            for codes in itertools.product(("", "a", "bt", "ci"),
                                           repeat=len(names)):
                for v in (False, True):
                    ctx.case("list", [[list(x) for x in zip(names, codes)],
                                      v])
                    n += 1
        incs = ["x.argus", "x.inc", "x.h", "y.lst", "x", "x.lst.argus",
                "d.x/x", "d.x/x.lst", "m.txt", "m", "mm.argus", "x.1",
                "y.argus"]
        for k in (1, 2, 3) if ctx.wide else (1, 2):
            for t in itertools.product(incs, repeat=k):
                for name in ("m.argus", "a.inc", "noext"):
                    ctx.case("including", [name, list(t)])
                    n += 1
        ctx.case("usage", [])
        ctx.case("usage", ["missing.argus"])
        ctx.count(states=n, transitions=n, traces=n)
        ctx.sample({"deck": "ci", "file": "d.x/noext"})
        ctx.bounds = {"cards per deck": 4 if ctx.deep else 3}
    return run


# ---- C26 character set ----------------------------------------------------

def charset(ctx):
    def table(arg):
        CH = import_repo("h800.charset").CHARSET
        expect("codes", sorted(CH), list(range(64)))
        want = {}
        for i in range(10):
            want[i] = str(i)
        for base, letters in ((17, "ABCDEFGHI"), (33, "JKLMNOPQR"),
                              (50, "STUVWXYZ")):
            for i, ch in enumerate(letters):
                want[base + i] = ch
        want.update({10: "'", 11: "=", 12: ":", 15: "&", 16: "+", 26: ";",
                     27: ".", 28: ")", 29: "%", 32: "-", 42: "#", 43: "$",
                     45: '"', 49: "/", 58: "@", 59: ",", 60: "(",
                     30: "\u2588", 44: None, 61: "\n"})
        for i in (13, 14, 31, 46, 47, 48, 62, 63):
            want[i] = " "
        for code, ch in want.items():
            expect("character %d" % code, CH[code], ch)
        seen = {}
        for code in range(64):
            ch = CH[code]
            if ch is None or ch == " ":
                continue
            if not isinstance(ch, str) or len(ch) != 1:
                fail("character %d is %r", code, ch)
            if ch in seen:
                fail("characters %d and %d are both %r", seen[ch], code, ch)
            seen[ch] = code
        return len(seen)

    ctx.kind("table", table)

    def run():
        n = ctx.case("table", None)
        ctx.count(states=64, transitions=64 + n, traces=1)
        ctx.sample({"codes": 64})
        ctx.bounds = {"codes": "all 64"}
    return run
