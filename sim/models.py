"""Small executable reference models, written from the documentation and independent of the code under test."""
import math

from geographiclib.geodesic import Geodesic

GEO = Geodesic(6378137.0, 1 / 298.257223563)     # WGS84, built here rather than shared with the code under test


def tokenize(text, ws):
    """Maximal runs of non-whitespace characters; a '/' that counts as whitespace is a token of its own."""
    out, start = [], None
    for i, c in enumerate(text):
        if c in ws:
            if start is not None:
                out.append((text[start:i], start, i))
                start = None
            if c == "/":
                out.append(("/", i, i + 1))
        elif start is None:
            start = i
    if start is not None:
        out.append((text[start:], start, len(text)))
    return out


def sound(alt):
    t = 15.0 + min(alt, 11000) * -0.00645
    return 331.15 * math.sqrt((t + 273.15) / 273.15)


UTILS = {
    "deg": lambda d, m: int(d) <= m,
    "degmin": lambda s, m, k: int(s[:k]) <= m and int(s[k:]) <= 59 and int(s) <= m * 100,
    "sound": sound,
    "mach": lambda n, a: n / 100 * (343.0 if a == 0 else sound(a)),
    "proj": lambda la, lo, b, d: (lambda g: [g["lat2"], g["lon2"]])(GEO.Direct(la, lo, b, d)),
    "inv": lambda a, b, c, d: (lambda g: [g["azi1"], g["s12"]])(GEO.Inverse(a, b, c, d)),
}


def close(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    if a != a or b != b:
        return a != a and b != b
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


class TokensModel:
    def __init__(self, unknown):
        self.unknown = unknown      # type and subtype of a token nobody has classified
        self.l = []
        self.c = 0

    def copy(self):
        m = TokensModel(self.unknown)
        m.l, m.c = [list(x) for x in self.l], self.c
        return m

    def at(self, i):
        return tuple(self.l[i]) if 0 <= i < len(self.l) else None

    def do(self, o):
        k = o[0]
        if k in ("append", "create"):
            self.l.append([o[1], o[2], o[3]] + self.unknown)
        elif k == "many":
            self.l += [list(x) + self.unknown for x in many(o)]
        elif k == "insert":
            self.l.insert(o[4], [o[1], o[2], o[3]] + self.unknown)
        elif k == "at":
            return self.at(o[1])
        elif k == "first":
            self.c = 0
            return self.at(0)
        elif k == "last":
            self.c = len(self.l) - 1
            return self.at(self.c)
        elif k == "next":
            self.c += 1
            return self.at(self.c)
        elif k == "prev":
            self.c -= 1
            return self.at(self.c)
        elif k == "peekn":
            return self.at(self.c + o[1])
        elif k == "peekp":
            return self.at(self.c - o[1])
        elif k == "cur":
            return self.at(self.c)
        elif k == "n":
            return len(self.l)
        elif k == "cut":
            self.l = self.l[:o[1] + 1]
        elif k == "tset":
            if 0 <= o[1] < len(self.l):
                self.l[o[1]][o[2]] = o[3]
        return None


def many(o):
    """The elements that the bulk operation ["many", how many, word, first position, ...] appends."""
    return [("%s%d" % (o[2], n), o[3] + n, o[3] + n + 4) for n in range(o[1])]


REC_FIELDS = ["name", "start_index", "end_index", "base_type", "sub_type", "altitude", "altitude_si", "speed", "speed_si",
              "break_text", "flight_rules", "error_text", "stay_time", "altitude_cruise_to", "altitude_cruise_to_si",
              "latitude", "longitude", "bearing", "distance", "lat_long_valid"]
REC_DEFAULT = {"altitude": "", "altitude_si": 0.0, "speed": "", "speed_si": 0.0, "break_text": "", "flight_rules": "",
               "error_text": "", "stay_time": 0, "altitude_cruise_to": "", "altitude_cruise_to_si": 0.0, "latitude": 0.0,
               "longitude": 0.0, "bearing": 0.0, "distance": 0.0, "lat_long_valid": False}


def rec(name, s, e, b, st):
    d = dict(REC_DEFAULT)
    d.update(name=name, start_index=s, end_index=e, base_type=b, sub_type=st)
    return d


class ErsModel:
    def __init__(self, point, aero):
        self.point, self.aero = point, aero
        self.l = [rec("ADEP", 0, 0, point, aero)]
        self.e = []
        self.rules = ""

    def copy(self):
        m = ErsModel(self.point, self.aero)
        m.l = [dict(x) for x in self.l]
        m.e = [dict(x) for x in self.e]
        m.rules = self.rules
        return m

    def key(self):
        return ([tuple(x[f] for f in REC_FIELDS) for x in self.l], [tuple(x[f] for f in REC_FIELDS) for x in self.e], self.rules)

    def at(self, i):
        return self.l[i] if 0 <= i < len(self.l) else None

    def do(self, o):
        k = o[0]
        if k in ("create", "append"):
            self.l.append(rec(*o[1:6]))
            return self.l[-1]
        if k == "many":
            for x in many(o):
                self.do(["error", *x, 1, 1, o[4]] if o[4] else ["create", *x, 1, 1])
            return None
        if k == "ades":
            self.l.append(rec("ADES", 0, 0, self.point, self.aero))
            return self.l[-1]
        if k == "error":
            r = rec(*o[1:6])
            r["error_text"] = o[1].join(o[6].split("!"))
            self.e.append(r)
        elif k == "at":
            return self.at(o[1])
        elif k == "first":
            return self.at(0)
        elif k == "last":
            return self.at(len(self.l) - 1)
        elif k == "prev":
            return self.at(len(self.l) - 2)
        elif k == "n":
            return len(self.l)
        elif k == "nerr":
            return len(self.e)
        elif k == "rules":
            self.rules = o[1]
        elif k == "getrules":
            return self.rules
        else:
            tgt = (self.e if o[1] else self.l)
            r = tgt[o[2]] if o[2] < len(tgt) else None
            if r is None:
                return None
            if k == "brk":
                r["break_text"] = o[3] if r["break_text"] == "" else r["break_text"] + " " + o[3]
            elif k == "err":
                r["error_text"] = o[3] if r["error_text"] == "" else r["error_text"] + " " + o[3]
            elif k == "stay":
                r["stay_time"] = 60 * int(o[3][:2]) + int(o[3][2:])
            elif k == "set":
                r[o[3]] = o[4]
            elif k == "get":
                return r[o[3]]
        return None
