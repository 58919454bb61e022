"""The reference model: plain code over golden Unicode data, sharing nothing with the library."""
import bisect, os, struct

MAX = 0x10FFFF
VERSIONS = ["9.0.0", "10.0.0", "11.0.0", "12.0.0", "12.1.0", "13.0.0", "14.0.0", "15.0.0", "15.1.0", "16.0.0", "17.0.0"]
# abbreviations in alphabetical order of the full names
CATS = "Pe Pc Cc Sc Pd Nd Me Pf Cf Pi Nl Zl Ll Sm Lm Sk Mn Ps Lo No Po So Zp Co Zs Mc Cs Lt Cn Lu".split()
FULL = """Close_Punctuation Connector_Punctuation Control Currency_Symbol Dash_Punctuation Decimal_Number Enclosing_Mark
Final_Punctuation Format Initial_Punctuation Letter_Number Line_Separator Lowercase_Letter Math_Symbol Modifier_Letter
Modifier_Symbol Nonspacing_Mark Open_Punctuation Other_Letter Other_Number Other_Punctuation Other_Symbol
Paragraph_Separator Private_Use Space_Separator Spacing_Mark Surrogate Titlecase_Letter Unassigned Uppercase_Letter""".split()
INDEX = {c: i for i, c in enumerate(CATS)}
CLASSES = "LMNPSZC"


class Version:
    __slots__ = ("starts", "ends", "cats", "table", "order")


def load():
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "golden", "ucd.bin")
    b = open(path, "rb").read()
    p, out = 0, []
    for _ in VERSIONS:
        (n,) = struct.unpack_from("<I", b, p)
        p += 4
        v = Version()
        v.starts, v.ends, v.cats, v.table, pos = [], [], [], [[] for _ in CATS], 0
        for _ in range(n):
            ln = shift = 0
            while True:
                x = b[p]
                p += 1
                ln |= (x & 127) << shift
                shift += 7
                if x < 128:
                    break
            c = b[p]
            p += 1
            v.starts.append(pos)
            v.ends.append(pos + ln - 1)
            v.cats.append(c)
            v.table[c].append((pos, pos + ln - 1))
            pos += ln
        assert pos == MAX + 1
        names = sorted(CATS, key=lambda c: (2 if c == "Cs" else 1 if c == "Cc" else 0, len(v.table[INDEX[c]]), c))
        v.order = tuple(names)
        out.append(v)
    assert p == len(b)
    return out


DATA = load()
LATEST = len(VERSIONS) - 1


def mask_of(names):
    """The set of two-letter names, or None if one is unknown."""
    s = set()
    for n in names:
        if n not in INDEX:
            return None
        s.add(INDEX[n])
    return s


def query(v, inc, exc, lo, hi, inc_ch, exc_ch):
    """A tuple of intervals, or None where the arguments are invalid (names are given as index sets)."""
    lo = 0 if lo is None else lo
    hi = MAX if hi is None else hi
    if lo > MAX or hi > MAX or lo > hi:
        return None
    d = DATA[v]
    sel = [(inc is None or c in inc) and c not in exc for c in range(len(CATS))]
    starts, ends, cats = d.starts, d.ends, d.cats
    base, last = [], -2
    for i in range(bisect.bisect_left(ends, lo), len(starts)):
        l = starts[i]
        if l > hi:
            break
        if sel[cats[i]]:
            r = ends[i]
            if l < lo:
                l = lo
            if r > hi:
                r = hi
            if last + 1 == l:
                base[-1] = (base[-1][0], r)
            else:
                base.append((l, r))
            last = r
    pts = {ord(c): True for c in inc_ch}
    pts.update((ord(c), False) for c in exc_ch)
    if pts:
        cuts = sorted(pts)
        pieces = [(p, p) for p in cuts if pts[p]]
        for l, r in base:
            i = bisect.bisect_left(cuts, l)
            while i < len(cuts) and cuts[i] <= r:
                if l < cuts[i]:
                    pieces.append((l, cuts[i] - 1))
                l = cuts[i] + 1
                i += 1
            if l <= r:
                pieces.append((l, r))
        pieces.sort()
        base = []
        for l, r in pieces:
            if base and base[-1][1] + 1 == l:
                base[-1] = (base[-1][0], r)
            else:
                base.append((l, r))
    return tuple(base)


def expand(v, names):
    """The abbreviations in normalised order, or None if a name is unknown."""
    s = set()
    for n in names:
        if n in INDEX:
            s.add(n)
        elif len(n) == 1 and n in CLASSES:
            s.update(c for c in CATS if c[0] == n)
        else:
            return None
    return tuple(c for c in DATA[v].order if c in s)
