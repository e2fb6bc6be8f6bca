"""Generators of plain values, keys and trees."""
import enum
import math
import pathlib
import string


class Color(enum.Enum):
    RED = 1
    GREEN = 2
    BLUE = 3


class Shape(enum.Enum):
    ROUND = "round"
    SQUARE = "square"
    # names and values that look like something else
    true = "null"
    A = 10


MISSING = "???"

IDENTS = ["a", "b", "c", "d", "e", "foo", "bar", "x1", "_y", "Zed"]
HOSTILE_STRS = [
    "", " ", "  lead", "trail ", "true", "False", "null", "None", "~", "yes", "n", "ON", "1", "-1", "+1", "0x1F",
    "1e5", "1e-3", ".5", "1_000", "1._5", "inf", ".inf", "nan", ".nan", "1:30", "2020-01-01", "a.b", "a[0]", "[0]",
    "[1,2]", "{a: 1}", "a: b", "- x", "# c", "$", "$x", "$ {x}", "\\", "a\\b", "\\$", "'", '"', "'q'", '"q"', "%d",
    "%", "@a", "`", "!tag", "&anc", "*al", "<<", "=", "?", "|", ">", "line\nbreak", "\n", "tab\t", "\r\n", "é", "日本",
    "😀", "\u2028", "\x85", "\x07", "RED", "Color.RED", "????", "??", " ???", "key=val", "a,b", "0", "00", "007",
    "1.", "+.5", "1e", "e1", "0b1", "0o7", "o", "y", "N", "/path/x", "C:\\x", "...", "---", "oc.env:X",
]  # fmt: skip


class G:
    def __init__(self, rng):
        self.r = rng

    def chance(self, p):
        return self.r.random() < p

    def ident(self):
        return self.r.choice(IDENTS)

    def int_(self):
        r = self.r
        return r.choice([0, 1, -1, 2, 10, 255, r.randint(-1000, 1000), 2**63, -(2**70)])

    def float_(self, nan=False, inf=True):
        r = self.r
        c = [0.0, 1.0, -1.5, 0.1, 1e100, 1e-7, 123456.789, r.uniform(-10, 10), 2.5e-10, 1e16]
        if inf:
            c += [math.inf, -math.inf]
        if nan:
            c.append(math.nan)
        return r.choice(c)

    def str_(self, inter=False):
        """A string; never '???' and never holding '${'."""
        r = self.r
        k = r.random()
        if k < 0.45:
            return r.choice(HOSTILE_STRS)
        if k < 0.75:
            return "".join(r.choice(string.ascii_lowercase) for _ in range(r.randint(1, 6)))
        al = "abz019 ._-+eE:,[]{}()'\"\\$#%&*!|>?@`=~^/\t\né日"
        while True:
            s = "".join(r.choice(al) for _ in range(r.randint(1, 8)))
            if "${" not in s and s != MISSING:
                return s

    def bytes_(self):
        r = self.r
        return bytes(r.randrange(256) for _ in range(r.randint(0, 5)))

    def path_(self):
        return pathlib.Path(self.r.choice(["/a/b", "x", ".", "..", "a b/c", "hello.txt", "/"]))

    def enum_(self):
        return self.r.choice(list(Color) + list(Shape))

    def prim(self, kinds="nbifsBPE", nan=False):
        k = self.r.choice(kinds)
        if k == "n":
            return None
        if k == "b":
            return self.r.random() < 0.5
        if k == "i":
            return self.int_()
        if k == "f":
            return self.float_(nan=nan)
        if k == "s":
            return self.str_()
        if k == "B":
            return self.bytes_()
        if k == "P":
            return self.path_()
        return self.enum_()

    def key(self, kinds="sssssifbBE"):
        k = self.r.choice(kinds)
        if k == "s":
            if self.chance(0.8):
                return self.ident()
            return self.str_()
        if k == "i":
            return self.r.choice([0, 1, 2, 3, -1, 10])
        if k == "f":
            return self.r.choice([0.5, 1.5, -2.25, 1e3, 0.0, 2.0])
        if k == "b":
            return self.chance(0.5)
        if k == "B":
            return self.r.choice([b"a", b"foo", b""])
        return self.r.choice(list(Color))

    def tree(self, depth=3, width=4, keys="s", kinds="nbifsBPE", root=None, special=0.0, nan=False, idents=False):
        """Plain nested dict/list/primitive.  special: probability of a '???' leaf."""
        r = self.r
        if root is None:
            k = r.random()
            if depth <= 0 or k < 0.5:
                if special and self.chance(special):
                    return MISSING
                return self.prim(kinds, nan=nan)
            root = "dict" if k < 0.8 else "list"
        n = r.randint(0, width)
        if root == "dict":
            d = {}
            for _ in range(n):
                kk = self.ident() if idents else self.key(keys)
                d[kk] = self.tree(depth - 1, width, keys, kinds, None, special, nan, idents)
            return d
        return [self.tree(depth - 1, width, keys, kinds, None, special, nan, idents) for _ in range(n)]


def same(a, b):
    """Equality that also compares types, key order and key types."""
    ta, tb = type(a), type(b)
    if ta is not tb:
        # pathlib.Path() instances may be PosixPath on both sides; anything else must agree exactly
        return False
    if ta is dict:
        ka, kb = list(a), list(b)
        if len(ka) != len(kb):
            return False
        for x, y in zip(ka, kb):
            if not same(x, y) or not same(a[x], b[y]):
                return False
        return True
    if ta in (list, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if ta is float:
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        return a == b and math.copysign(1, a) == math.copysign(1, b)
    return a == b


def clone(x):
    """Copy of a plain tree (containers are copied, leaves are shared)."""
    if type(x) is dict:
        return {k: clone(v) for k, v in x.items()}
    if type(x) is list:
        return [clone(v) for v in x]
    if type(x) is tuple:
        return tuple(clone(v) for v in x)
    return x


def walk(x, path=()):
    """Yield (path, value) for every node of a plain tree, root first."""
    yield path, x
    if type(x) is dict:
        for k, v in x.items():
            yield from walk(v, path + (k,))
    elif type(x) in (list, tuple):
        for i, v in enumerate(x):
            yield from walk(v, path + (i,))


def at(x, path):
    for k in path:
        x = x[k]
    return x
