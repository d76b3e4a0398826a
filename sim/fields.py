"""Seeded generator of field 15 texts: grammar-shaped routes, every kind of token, damage, and
families of near-identical siblings (same length, same ends, one character different...)."""
import random
import re
import string

WS_FULL = " \n\t\r/"
WS_DEF = " \n\t\r"
LETTERS = string.ascii_uppercase


def _l(r, n):
    return "".join(r.choice(LETTERS) for _ in range(n))


def _d(r, n):
    return "".join(r.choice("0123456789") for _ in range(n))


def speed(r):
    k = r.random()
    if k < 0.5:
        return "N%04d" % r.choice([100, 250, 300, 420, 450, 480, r.randrange(10000)])
    if k < 0.8:
        return "M%03d" % r.choice([72, 78, 80, 82, 84, r.randrange(1000)])
    return "K%04d" % r.choice([700, 800, 830, r.randrange(10000)])


def level(r):
    k = r.random()
    if k < 0.55:
        return "F%03d" % r.choice([50, 100, 290, 310, 330, 350, 370, 390, 5 * r.randrange(100), r.randrange(1000)])
    if k < 0.7:
        return "S%04d" % r.choice([810, 1010, 1130, r.randrange(2000)])
    if k < 0.85:
        return "A%03d" % r.choice([45, 50, 100, r.randrange(300)])
    return "M%04d" % r.choice([84, 825, 840, r.randrange(2000)])


def spd_lvl(r):
    return speed(r) + level(r)


def spd_vfr(r):
    return speed(r) + "VFR"


def latlon(r, good=True):
    if r.random() < 0.5:
        la, lo = (r.randrange(0, 90), r.randrange(0, 180)) if good else (r.randrange(60, 100), r.randrange(150, 400))
        return "%02d%s%03d%s" % (la, r.choice("NS"), lo, r.choice("EW"))
    la, lo = (r.randrange(0, 90), r.randrange(0, 180)) if good else (r.randrange(60, 100), r.randrange(150, 400))
    return "%02d%02d%s%03d%02d%s" % (la, r.randrange(0, 60 if good else 100), r.choice("NS"),
                                     lo, r.randrange(0, 60 if good else 100), r.choice("EW"))


def bd(r, good=True):
    return "%03d%03d" % (r.randrange(0, 361) if good else r.randrange(300, 1000), r.choice([0, 10, 40, r.randrange(1000)]))


def point(r, good=True):
    k = r.random()
    if k < 0.34:
        return _l(r, r.choice([2, 3, 3, 5, 5, 5]))
    if k < 0.42:
        return _l(r, 4)
    if k < 0.5:
        return _l(r, r.choice([2, 3, 5])) + bd(r, good)
    if k < 0.86:
        return latlon(r, good)
    return latlon(r, good) + bd(r, good)


def route(r):
    return r.choice([
        lambda: _l(r, r.choice([1, 2])) + _d(r, 1),
        lambda: _l(r, 1) + _d(r, r.choice([1, 2, 3])) + _l(r, 1),
        lambda: _l(r, 1) + _d(r, r.choice([2, 3])),
        lambda: _l(r, 2) + _d(r, r.choice([2, 3])),
        lambda: _l(r, 2) + _d(r, r.choice([1, 2, 3])) + _l(r, 1),
        lambda: _l(r, 3) + _d(r, r.choice([1, 2, 3])),
        lambda: _l(r, 4) + _d(r, r.choice([1, 2])),
        lambda: "NAT" + _l(r, 1), lambda: "NAT" + _l(r, 1) + _d(r, 1),
        lambda: "PTS" + r.choice([_d(r, 1), _l(r, 1)]),
    ])()


def sid(r):
    return r.choice([
        lambda: _l(r, 3) + _d(r, r.choice([1, 2])) + _l(r, 1),
        lambda: _l(r, 5) + _d(r, r.choice([1, 2])),
        lambda: _l(r, r.choice([4, 5, 6])) + _d(r, 1) + _l(r, 1),
        lambda: _l(r, 5) + _d(r, 2) + _l(r, 1),
        lambda: "SID",
    ])()


def stay(r):
    return "STAY%s/%02d%02d" % (_d(r, 1), r.randrange(24), r.randrange(60))


def free(r):
    return r.choice([
        lambda: _l(r, r.randrange(1, 9)), lambda: point(r), lambda: route(r), lambda: spd_lvl(r),
        lambda: "TEXT", lambda: "/" + _l(r, 3), lambda: _d(r, r.randrange(1, 7)), lambda: "DCT", lambda: "IFR",
        lambda: "GAT", lambda: "A%BC", lambda: special(r), lambda: "VIA", lambda: "IFPSTART",
    ])()


def junk(r):
    return r.choice([
        lambda: _l(r, 3) + r.choice("%!&<\"'+;*") + _l(r, 2), lambda: special(r), lambda: special(r), lambda: _l(r, r.randrange(26, 40)),
        lambda: _d(r, r.randrange(1, 8)), lambda: "DEF%", lambda: "X" * r.choice([24, 25, 26, 27]), lambda: "/",
        lambda: "//", lambda: "!", lambda: "É" + _l(r, 2), lambda: _l(r, 2).lower(), lambda: _l(r, 6) + _d(r, 3),
        lambda: "N045F350", lambda: "N0450F3500", lambda: "STAY", lambda: "STAY12", lambda: "T", lambda: "C",
        lambda: "SID", lambda: "STAR", lambda: "IFR", lambda: "GAT", lambda: "IFPSTART", lambda: "VFR", lambda: "OAT",
        lambda: "IFPSTOP", lambda: "2459", lambda: "2359", lambda: spd_lvl(r), lambda: spd_vfr(r),
        lambda: spd_lvl(r) + level(r), lambda: spd_lvl(r) + "PLUS", lambda: sid(r), lambda: route(r), lambda: "DCT",
        lambda: stay(r), lambda: latlon(r, False), lambda: "\u0661\u0662N003E", lambda: exotic(r, anytoken(r)),
        lambda: punct(r, anytoken(r)), lambda: punct(r, anytoken(r)),
    ])()


DIGITS = "\u00b2\u00b3\u00b9\u2075\u0663\u0664\u06f5\u0967\uff11\uff15\U0001d7d9\u2460\u4e94\u00bd"
ALIKE = {"A": "\u0410\u0391\uff21a", "B": "\u0412b", "C": "\u0421\u216d", "E": "\u0415e", "K": "\u212ak", "M": "\u041c\u216f", "N": "\u039dn",
         "S": "\u0405\u017f", "T": "\u0422", "V": "\u2164", "F": "\uff26", "I": "\u0406\u0131\u0130", "W": "\u0461", "/": "\u2215\uff0f"}


def exotic(r, tok):
    """The token with characters that are almost the right ones: other digits, look-alike letters."""
    at = [i for i, c in enumerate(tok) if c.isdigit() or c in ALIKE]
    for i in r.sample(at, min(len(at), r.choice([1, 1, 2, 4, 12]))):
        tok = tok[:i] + r.choice(DIGITS if tok[i].isdigit() else ALIKE[tok[i]]) + tok[i + 1:]
    return tok


def punct(r, tok):
    """The token as people write it in a sentence."""
    c = r.choice(".,;:-?!()'\"+=_#*")
    k = r.random()
    return tok + c if k < 0.6 else c + tok if k < 0.8 else "(" + tok + ")" if k < 0.9 else tok + c + c


CLASSES = [spd_lvl, spd_lvl, spd_vfr, latlon, point, route, sid, stay,
           lambda r: latlon(r, False), lambda r: point(r, False), lambda r: spd_lvl(r) + level(r), lambda r: spd_lvl(r) + "PLUS",
           lambda r: "/", lambda r: "/", lambda r: "/", lambda r: "VFR", lambda r: "IFR", lambda r: "OAT", lambda r: "GAT",
           lambda r: "IFPSTOP", lambda r: "IFPSTART", lambda r: "STAY" + _d(r, 1), lambda r: "%02d%02d" % (r.randrange(25), r.randrange(61)),
           lambda r: "C", lambda r: "T", lambda r: "SID", lambda r: "STAR", lambda r: "DCT", lambda r: "NATA", lambda r: _l(r, r.randrange(1, 7)),
           lambda r: _d(r, r.randrange(1, 8)), lambda r: "AB%", lambda r: "X" * r.choice([25, 26])]


def anytoken(r):
    return r.choice(CLASSES)(r)


def short_field(r):
    """A few tokens of any kinds in any order, slashes glued or not, after a beginning that may be valid."""
    toks = r.choice([[], [spd_lvl(r)], [spd_lvl(r)], [spd_lvl(r), _l(r, 3)], [spd_lvl(r), _l(r, 5)], [spd_vfr(r)], [spd_lvl(r), _l(r, 3), "VFR"]])
    toks += [anytoken(r) for _ in range(r.choice([1, 1, 2, 2, 3, 3, 4, 5, 6]))]
    out = toks[0]
    for a, b in zip(toks, toks[1:]):
        out += ("" if "/" in (a, b) and r.random() < 0.8 else " ") + b
    return {"t": out, "w": WS_FULL}


def giant(r):
    """A token of hundreds or thousands of characters."""
    n = r.choice([26, 100, 641, 700, 4299, 4301, 5000])
    c = r.choice(["0", "9", "1", "A", "N", "\u0660", "\u00b2", "00N", "STAY", "N0450"])
    return r.choice(["", "", "N", "STAY", "F", "A"]) + (c * n)[:n] + r.choice(["", "", "", "E", "F350", "%"])


SPECIAL = ["\\1", "\\g<0>", "\\", "\\d", "%s", "%d", "%(a)s", "%%", "%", "{}", "{0}", "{a}", "{", "}", "$a", "${a}", "$", "&lt;", "&amp;", "<b>",
           "]]>", "<!--", "\x00", "\x1b[0m", "\u2028", "#", "(", ")", "(?", "[", "]", "[A", "*", "+", "?", "|", "^", ".", "..", ",", ";",
           "'", '"', "`", "~", "@", ":", "=", "-", "_", "__A__", "NONE", "NULL", "TRUE", "NAN", "INF", "1E5", "0X1F", "\ufeff", "\u00df",
           "\U0001f6eb", "\u0130", "\u00b2", "!", "!!"]


def special(r):
    """Text that means something to some formatting, pattern, markup or shell language."""
    x = r.choice(SPECIAL)
    k = r.random()
    return x if k < 0.3 else _l(r, r.randrange(1, 4)) + x if k < 0.6 else x + _l(r, r.randrange(1, 4)) if k < 0.8 else _l(r, 2) + x + _l(r, 2)


def segment(r):
    k = r.random()
    if k < 0.30:
        return [r.choice([route(r), "DCT"]), point(r)]
    if k < 0.46:
        return [point(r)]
    if k < 0.60:
        return [point(r) + "/" + spd_lvl(r)]
    if k < 0.68:
        return [point(r), r.choice(["VFR", point(r) + "/" + spd_vfr(r)])] + [free(r) for _ in range(r.randrange(0, 4))] \
            + (["IFR", point(r) + "/" + r.choice([spd_lvl(r), spd_lvl(r), spd_vfr(r)])] if r.random() < 0.7 else [])
    if k < 0.75:
        return [point(r), "OAT"] + [free(r) for _ in range(r.randrange(0, 4))] + (["GAT", point(r)] if r.random() < 0.7 else [])
    if k < 0.80:
        return [point(r), "IFPSTOP"] + [free(r) for _ in range(r.randrange(0, 3))] + \
            (["IFPSTART", point(r)] if r.random() < 0.7 else [])
    if k < 0.88:
        return ["C/" + point(r) + "/" + spd_lvl(r) + r.choice([level(r), "PLUS"])]
    if k < 0.94:
        return [point(r), stay(r)]
    if k < 0.95:
        return [exotic(r, anytoken(r))]
    return [route(r), point(r), "DCT", point(r)]


def tokens_of(r, nseg=None, damage=None):
    nseg = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5]) if nseg is None else nseg
    k = r.random()
    out = [spd_lvl(r)] if k < 0.74 else [spd_vfr(r)] if k < 0.9 else [free(r)] if k < 0.95 else []
    if r.random() < 0.3:
        out.append(sid(r))
    for _ in range(nseg):
        out += segment(r)
    if r.random() < 0.3:
        out.append(r.choice([sid(r), "STAR"]))
    if r.random() < 0.08:
        out.append("T")
    damage = r.random() if damage is None else damage
    if damage < 0.45:
        for _ in range(1 if damage > 0.15 else r.randrange(1, 5)):
            how = r.randrange(5)
            i = r.randrange(len(out) + 1)
            if how <= 1 or not out:
                out.insert(i, junk(r))
            elif how == 2:
                out.pop(i - 1)
            elif how == 3:
                out[i - 1] = junk(r)
            else:
                j = r.randrange(len(out))
                out[i - 1], out[j] = out[j], out[i - 1]
    return out


def join(r, toks):
    k = r.random()
    if k < 0.7:
        return " ".join(toks)
    s = r.choice(["", " ", "\n"]) if k < 0.85 else ""
    for i, t in enumerate(toks):
        s += t + (r.choice([" ", " ", "  ", "\n", "\t", "\r\n", " / "]) if k > 0.9 else r.choice([" ", "  ", "\n", "\t"]))
    return s


def field(r, nseg=None):
    """One field: {'t': text, 'w': whitespace set}"""
    return {"t": join(r, tokens_of(r, nseg)), "w": WS_DEF if r.random() < 0.04 else WS_FULL}


def _swap_char(r, c):
    if c.isdigit():
        return r.choice("0123456789")
    if c in "NS":
        return r.choice("NS")
    if c in "EW":
        return r.choice("EW")
    if c.isalpha():
        return r.choice(LETTERS)
    return c


def nudge(r, text):
    """One of the numbers in the text plus or minus a little."""
    runs = list(re.finditer("[0-9]+", text))
    if not runs:
        return text
    m = r.choice(runs)
    n = len(m.group())
    v = int(m.group()) + r.choice([-1, 1, -1, 1, 2, 5, -5, 10])
    if v < 0 or len(str(v)) > n:
        return text
    return text[:m.start()] + str(v).zfill(n) + text[m.end():]


def leg_field(r):
    """Mostly neighbouring points with coordinates."""
    toks = [spd_lvl(r)]
    la, lo = r.randrange(0, 88), r.randrange(0, 178)
    for _ in range(r.randrange(2, 6)):
        if r.random() < 0.7:
            toks.append("%02d%02d%s%03d%02d%s" % (la, r.randrange(60), r.choice("NS"), lo, r.randrange(60), r.choice("EW")))
        else:
            toks.append("%02d%s%03d%s" % (la, r.choice("NS"), lo, r.choice("EW")))
        if r.random() < 0.2:
            toks[-1] += "%03d%03d" % (r.randrange(360), r.randrange(200))
        if r.random() < 0.3:
            toks.append("DCT")
        la, lo = min(89, la + r.randrange(2)), min(179, lo + r.randrange(2))
    if toks[-1] == "DCT":
        toks.pop()
    return {"t": " ".join(toks), "w": WS_FULL}


def sibling(r, f):
    """A different field that resembles f as much as possible."""
    text = f["t"]
    for _ in range(8):
        how = r.randrange(14)
        toks = text.split(" ")
        if how == 0 and text:
            i = r.randrange(len(text))
            new = text[:i] + _swap_char(r, text[i]) + text[i + 1:]
        elif how == 1 and text:                       # only the tail differs
            i = r.randrange(len(text) // 2, len(text))
            new = text[:i] + "".join(_swap_char(r, c) for c in text[i:])
        elif how == 2 and text:                       # only the head differs
            i = r.randrange(0, len(text) // 2 + 1)
            new = "".join(_swap_char(r, c) for c in text[:i]) + text[i:]
        elif how == 3 and len(toks) > 2:              # same multiset of tokens, another order
            i, j = r.sample(range(1, len(toks)), 2)
            toks[i], toks[j] = toks[j], toks[i]
            new = " ".join(toks)
        elif how == 4:                                # token replaced by one of another kind with the same length
            i = r.randrange(len(toks))
            n = len(toks[i])
            cands = [x for x in (junk(r), point(r), route(r), sid(r), spd_lvl(r), spd_vfr(r), free(r), latlon(r, False),
                                 latlon(r), _d(r, max(1, n)), _l(r, max(1, n)), point(r, False)) if len(x) == n]
            toks[i] = r.choice(cands or [_l(r, n)])
            new = " ".join(toks)
        elif how == 5:                                # same text, moved
            new = r.choice([" ", "  ", "\n", "\t "]) + text
        elif how == 6:                                # an extension or a prefix
            new = text + " " + r.choice([point(r), route(r), "DCT " + point(r), "T", junk(r)]) if r.random() < 0.5 \
                else " ".join(toks[:max(1, len(toks) - 1)])
        elif how == 7:                                # letter case
            i = r.randrange(len(toks))
            toks[i] = toks[i].lower()
            new = " ".join(toks)
        elif how == 8:
            new = text.replace(r.choice("NSEW"), r.choice("NSEW"), 1)
        elif how == 9:                                # another first element, same remainder
            toks[0] = r.choice([spd_lvl(r), spd_vfr(r), point(r)])
            new = " ".join(toks)
        elif how == 13:
            i = r.randrange(len(toks))
            toks[i] = punct(r, toks[i])
            new = " ".join(toks)
        elif how >= 11:                               # neighbouring values: a minute, a level, a knot more or less
            new = nudge(r, text)
        else:                                         # spacing only
            new = text.replace(" ", r.choice(["  ", "\n", "\t"]), 1)
        if new != text:
            return {"t": new, "w": f["w"]}
    return {"t": text + " ZZZ", "w": f["w"]}


def long_field(r, ntok):
    toks = [spd_lvl(r)]
    while len(toks) < ntok:
        k = r.random()
        if k < 0.5:
            toks.append(point(r))
        elif k < 0.8:
            toks += [r.choice([route(r), "DCT"]), point(r)]
        elif k < 0.93:
            toks += [_l(r, 5) + "/" + spd_lvl(r)]
        else:
            toks += [_l(r, 5), "VFR"] + [free(r) for _ in range(r.randrange(1, 12))] + ["IFR", _l(r, 5) + "/" + spd_lvl(r)]
    return {"t": " ".join(toks[:ntok]), "w": WS_FULL}


def snippet(r):
    """A few tokens to be repeated."""
    out = []
    for _ in range(r.choice([1, 1, 1, 2, 2, 3])):
        k = r.random()
        if k < 0.4:
            out += segment(r)
        elif k < 0.65:
            out.append(junk(r))
        elif k < 0.8:
            out.append(free(r))
        else:
            out.append(r.choice([point(r), point(r, False), spd_lvl(r), spd_vfr(r), "VFR", "OAT", "IFPSTOP", "STAY1/0100", "C/" + point(r)]))
    return " ".join(out)


def repeat_field(r, ntok):
    """The same few tokens over and over, valid or not."""
    s = snippet(r)
    n = max(1, len(s.replace("/", " / ").split()))
    head = r.choice([spd_lvl(r), spd_lvl(r), spd_vfr(r), spd_lvl(r) + " VFR", spd_lvl(r) + " " + point(r) + " OAT"])
    return {"t": head + " " + " ".join([s] * max(1, (ntok - 4) // n)), "w": WS_FULL}


def mill(r):
    """A token that makes a careless pattern backtrack."""
    n = r.choice([24, 26, 28, 32, 40, 64, 400, 3000])
    c = r.choice(["A", "0", "N0450", "F350", "AB", "S", "00N000E", "STAY", "A1", "N"])
    return (c * n)[:n] + r.choice(["%", "", "/", "a", "\u00c4", " %", "VFR", "PLUS"])


def distinct_tokens_field(r, n, start):
    """n tokens that never repeat (drives any cache keyed by token text past its capacity)."""
    toks = [spd_lvl(r)]
    for i in range(n):
        j = start + i
        w = ""
        for _ in range(5):
            w = LETTERS[j % 26] + w
            j //= 26
        toks.append(w)
    return {"t": " ".join(toks), "w": WS_FULL}


def pool(r, n):
    """A working set for one run: a few families of siblings plus independents, with repeats likely."""
    out = []
    while len(out) < n:
        base = field(r)
        out.append(base)
        if r.random() < 0.65:
            for _ in range(r.randrange(1, 4)):
                out.append(sibling(r, r.choice([base, out[-1]])))
    return out[:n]


# hand-picked fields: every grammar state and every error message the parser can give
CORPUS = [
    "", " ", "N0450M0825 00N000E B9 00N001E VFR IFR 00N001W/N0350F100 01N001W 01S001W 02S001W180060",
    "N0450F350", "N0450VFR", "N0450F350 PNT", "N0450VFR PURE VFR FLIGHT", "N0450VFR FREE TEXT IFR PNT/N0300F100 ABC",
    "N0450F350 SID", "N0450F350 SID STAR", "N0450F350 DCT", "N0450F350 DCT PNT", "N0450F350 ABC1A PNT DCT XYZ ABCDE1B",
    "N0450F350 PNT B9 ABC", "N0450F350 PNT B9", "N0450F350 PNT B9 B10 ABC", "N0450F350 PNT B9 DCT", "N0450F350 PNT B9 VFR",
    "N0450F350 PNT/N0450F370 ABC", "N0450F350 PNT/", "N0450F350 PNT/ABC", "N0450F350 PNT/N0100VFR THIS IS VFR TEXT",
    "N0450F350 PNT VFR TEXT IFR ABC/N0420F330 DCT XYZ", "N0450F350 PNT VFR IFR ABC/M082VFR TEXT IFR DEF/N0100F100",
    "N0450F350 PNT VFR IFR ABC", "N0450F350 PNT VFR IFR ABC/", "N0450F350 PNT VFR IFR ABC/PNT", "N0450F350 PNT IFR ABC",
    "N0450F350 PNT OAT TEXT GAT ABC DCT DEF", "N0450F350 PNT OAT", "N0450F350 PNT GAT ABC", "N0450F350 PNT IFPSTOP X IFPSTART ABC",
    "N0450F350 PNT IFPSTART", "N0450F350 PNT STAY1/0100 ABC", "N0450F350 PNT STAY1", "N0450F350 PNT STAY1/", "N0450F350 PNT STAY1 ABC",
    "N0450F350 PNT STAY1/ABC", "N0450F350 PNT STAY1/0100", "N0450F350 PNT STAY1/0100 STAY2/0200", "N0450F350 PNT 0100",
    "N0450F350 C/PNT/N0450F350F370 ABC", "N0450F350 C/PNT/M082F350PLUS ABC", "N0450F350 C/", "N0450F350 C", "N0450F350 C/PNT",
    "N0450F350 PNT C/ABC/K0800S1130S1200 DEF", "N0450F350 PNT C/ABC/N0450F350 DEF", "N0450F350 PNT C ABC", "N0450F350 C/00N001E/M082A100A200 ABC",
    "N0450F350 PNT/C/DEF/N0450F350F370 ABC", "N0450F350 PNT C/ABC/DEF", "N0450F350 PNT T", "N0450F350 PNT T ABC", "N0450F350 T",
    "N0450F350 PNT DEF% GGG", "N0450F350 PNT ABCDEFGHIJKLMNOPQRSTUVWXYZA ABC", "PNT N0450F350 ABC", "PNT", "N0450F353 PNT",
    "N0450F350 91N000E 00N181E 9001N00000E 0060N00000E 0000N18001E 0000N00060E", "N0450F350 00N000E361010 PNT361010 0000N00000E361010",
    "N0450F350 00N000E 01N001E 02N002E B9 ABC", "N0450F350 PNT B9 02N002E", "N0450F350 PNT B9 ABCDE1A", "N0450F350 PNT ABCDE1A DEF",
    "N0450F350 PNT B9 STAR", "N0450F350 PNT STAR ABC", "N0450F350 SID SID", "N0450F350 SID B9", "N0450F350 SID DCT ABC", "N0450F350 SID VFR",
    "N0450F350 N0450F350", "N0450F350 N0450VFR", "N0450F350 N0450F350F370", "N0450F350/PNT", "N0450F350 / PNT", "/", "//", "VFR", "IFR ABC",
    "N0450F350 PNT N0450F350", "N0450F350 PNT B9/N0450F350 ABC", "N0450F350 PNT/N0450F350F370 ABC", "N0450F350 PNT/N0450F350PLUS",
    "M082F350 PNT/M080S1130 ABC/K0830A045 DEF/N0420M0840 GHI", "K0830S1130 00N000E/M082F330 01N001E B9 02N003W",
    "N0450F350 1234N01234E/M078F290 2345S12345W090100 NATA 50N020W 50N030W PTS1 ABC", "N0450F350 PNT DCT DCT ABC", "N0450F350 PNT VFR OAT GAT ABC",
    "N0450F350 PNT OAT TEXT ABCDEFGHIJKLMNOPQRSTUVWXYZABCDEF GAT ABC", "N0450F350 PNT VFR A/B C/D IFR/X IFR PNT/N0100F100",
    "M082VFR ABC DEF", "K0800VFR IFR 00N000E/K0800F100 01N001E", "N0450F350 ABCD ABCD1 EFGH/N0420F310", "N0450F350 A&B C<D \"E\"",
    "N0450F350 PNT IFR", "N0450F350 PNT GAT", "N0450F350 PNT/VFR ABC", "N0450F350 PNT/IFR ABC", "N0450F350 PNT/STAY1 ABC", "N0450F350 PNT//N0450F350",
    "N0450F350 B9 ABC", "N0450F350 VFR", "N0450F350 OAT ABC GAT DEF", "N0450F350 STAR", "N0450F350 0100", "N0450F350 STAY1/0100 ABC", "N0450F350 XYZ%1 ABC",
    "N0450F350 ABCDEFGHIJKLMNOPQRSTUVWXYZ ABC", "N0450F350 SID/N0450F350 ABC", "N0450F350 SID T", "N0450F350 SID C/ABC/N0450F350F370",
    "N0450F350 SID STAY1/0100", "N0450F350 SID ABC DEF SID", "N0450F350 PNT B9 IFR", "N0450F350 PNT B9 T", "N0450F350 PNT B9 C/ABC/N0450F350F370",
    "N0450F350 PNT B9 STAY1/0100 ABC", "N0450F350 PNT B9 XY%", "N0450F350 PNT DCT B9", "N0450F350 PNT DCT VFR", "N0450F350 PNT DCT STAR",
    "N0450F350 PNT STAY1/0100/ ABC", "N0450F350 PNT STAY1/0100 0200 ABC", "N0450F350 PNT STAY1//0100 ABC", "N0450F350 C/ABC/N0450A100A120 DEF C/GHI/N0450F150PLUS",
]


def corpus():
    return [{"t": t, "w": WS_FULL} for t in CORPUS]
