"""Interpolation expressions with a known meaning: generator of (text, tree) and a reference evaluator.

Trees:
  ("text", pieces)                 whole string; a piece is a str (literal) or an interpolation tree
  ("ref", dots, steps)             ${..a.b[c]}; a step is (".", key) or ("[", key), a key is a str or an interpolation tree
  ("call", name pieces, args)      ${f:a,b}; args are element trees paired with their raw text
elements:
  ("val", v)                       literal of a known value (number, bool, null, plain word, quoted word)
  ("cat", pieces)                  concatenation of literals and interpolations (unquoted or quoted)
  ("list", [elements]) / ("dict", [(key, element)])
  an interpolation tree
"""
import re

INT_RE = re.compile(r"[+-]?(0|[1-9](_?[0-9])*)\Z", re.A)
_U = r"(?:0|[1-9](?:_?[0-9])*)"
_PF = rf"(?:{_U}\.|(?:{_U})?\.[0-9](?:_?[0-9])*)"
FLOAT_RE = re.compile(rf"[+-]?(?:{_PF}|(?:{_PF}|{_U})[eE][+-]?[0-9](?:_?[0-9])*|[Ii][Nn][Ff]|[Nn][Aa][Nn])\Z", re.A)
BOOL_RE = re.compile(r"(true|false)\Z", re.I | re.A)
NULL_RE = re.compile(r"null\Z", re.I | re.A)


def atom(text):
    """Value of an unquoted text without escapes and interpolations."""
    if NULL_RE.match(text):
        return None
    if BOOL_RE.match(text):
        return text.lower() == "true"
    if INT_RE.match(text):
        return int(text.replace("_", ""))
    if FLOAT_RE.match(text):
        return float(text.replace("_", ""))
    return text


class Err(Exception):
    """Expected failure; kind is cycle, parent, key, missing, type, name, resolver, keytype."""

    def __init__(self, kind, at=None):
        super().__init__(kind)
        self.kind = kind
        self.at = at


class Nd:
    """Result that is a container of the config."""

    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, Nd) and o.path == self.path

    def __repr__(self):
        return f"Nd{self.path}"


# --------------------------------------------------------------------------- rendering
def esc_top(lit, before_inter):
    """Text of a literal at top level; before_inter: an interpolation follows directly."""
    out = re.sub(r"(\\*)\$\{", lambda m: m.group(1) * 2 + "\\${", lit)
    if before_inter:
        m = re.search(r"\\+\Z", out)
        if m:
            out += m.group(0)
    return out


def esc_quoted(lit, q, before_inter, last):
    def sub(m):
        return m.group(1) * 2 + "\\" + m.group(2)

    out = re.sub(r"(\\*)(\$\{|%s)" % q, sub, lit)
    if before_inter or last:
        m = re.search(r"\\+\Z", out)
        if m:
            out += m.group(0)
    return out


WORDS = ["a", "foo", "x-1", "_y", "yes", "nulls", "truex", "inf1", "e5", "Z", "a_b", "None", "no"]
NUMS = [
    "0", "1", "-1", "+7", "10", "1_000", "1.", ".5", "-0.5", "1e3", "1E-2", "+1.5e+2", "inf", "-INF", "nan", "1_0.2_5",
    "1.5e1_0", "0.0", "00", "007", "1__0", "_1", "1_", "1e", "1.e3", ".e1", "--1", "1-1", "1.2.3", "0x1F", "-", "+", "0e0",
    "123456789012345678901234567890", "-0", "+0.0", "1e400", "5e-324", ".5.", "+inf", "Infinity", "+nan", "-nan",
]  # fmt: skip
KEYWORDS = ["null", "NULL", "Null", "true", "True", "TRUE", "false", "fALSE", "nUll", "~", "none", "tRuE", "truE", "FalSE"]
UNQ = "/-\\+.$%*@?|"
QLITS = [
    "", " ", "a b", "x,y", "[1]", "{a:1}", ":", "=", "a=b", "(x)", "\\", "\\\\", "a\\", "$", "$$", "\\$", "${x}", "\\${x}",
    "\\\\${", "$ {", "}", "{", "]", "#", "é", "日", "\t", "'", '"', "it's", 'say "hi"', "\\'", '\\"', "null", "1", "true",
    "a\\b", "\\\\'", "${", "$}", "&", "!", "\n",
]  # fmt: skip


class Gen:
    """Generator of expressions.  refs: list of (dots, steps) candidates given by refs(rng); names of resolvers."""

    def __init__(self, rng, refs=None, resolvers=("ocv_rec",), depth=3, ws=True, empties=False):
        self.r = rng
        self.refs = refs
        self.resolvers = resolvers
        self.maxd = depth
        self.ws = ws
        self.empties = empties

    def sp(self, p=0.15):
        return self.r.choice([" ", "  ", "\t", " \t "]) if self.ws and self.r.random() < p else ""

    # -- interpolations
    def inter(self, d):
        if self.refs is not None and (not self.resolvers or self.r.random() < 0.6):
            return self.ref(d)
        if not self.resolvers:
            raise ValueError("no interpolation possible")
        return self.call(d)

    def ref(self, d):
        dots, keys = self.refs(self.r)
        steps, text = [], ""
        for n, k in enumerate(keys):
            kt, ka = k[:2] if isinstance(k, tuple) else (k, k)  # (text, tree[, style]) or a plain key
            style = k[2] if len(k) == 3 and isinstance(k, tuple) else self.r.choice("..[" if n else "....[")
            if style == "[":
                text += f"[{kt}]"
            else:
                text += ("." if n else "") + kt
            steps.append((style, ka))
        return "${" + self.sp() + "." * dots + text + self.sp() + "}", ("ref", dots, steps)

    def call(self, d):
        name = self.r.choice(list(self.resolvers))
        n = self.r.choice([0, 1, 1, 2, 2, 3])
        args, texts = [], []
        for _ in range(n):
            t, a = self.element(d - 1)
            args.append((a, t))
            texts.append(t)
        seq = ""
        for k, t in enumerate(texts):
            seq += (self.sp() + "," + self.sp() if k else "") + t
        text = "${" + self.sp() + name + self.sp() + ":" + self.sp() + seq + self.sp() + "}"
        return text, ("call", [name], args)

    # -- elements
    def element(self, d):
        x = self.r.random()
        if d > 0 and x < 0.12:
            return self.list_(d)
        if d > 0 and x < 0.24:
            return self.dict_(d)
        if d > 0 and x < 0.38:
            return self.inter(d - 1)
        if x < 0.6:
            return self.quoted(d)
        if d > 0 and x < 0.7:
            return self.cat(d)
        return self.unquoted()

    def list_(self, d):
        items = [self.element(d - 1) for _ in range(self.r.randint(0, 3))]
        text = "[" + self.sp()
        for k, (t, _) in enumerate(items):
            text += (self.sp() + "," + self.sp() if k else "") + t
        return text + self.sp() + "]", ("list", [a for _, a in items])

    def dict_(self, d):
        items = []
        for _ in range(self.r.randint(0, 3)):
            kt, kv = self.unquoted(colon=False)
            if kv[1] != kv[1]:
                kt, kv = "k", ("val", "k")
            items.append((kt, kv[1], *self.element(d - 1)))
        text = "{" + self.sp()
        for k, (kt, _, t, _) in enumerate(items):
            text += (self.sp() + "," + self.sp() if k else "") + kt + self.sp() + ":" + self.sp() + t
        return text + self.sp() + "}", ("dict", [(kv, a) for _, kv, _, a in items])

    def unquoted(self, colon=True):
        """(text, ("val", v)) of an unquoted literal."""
        r = self.r
        x = r.random()
        if x < 0.3:
            t = r.choice(NUMS)
            return t, ("val", atom(t))
        if x < 0.4:
            t = r.choice(KEYWORDS)
            if t != "~":
                return t, ("val", atom(t))
        if x < 0.6:
            t = r.choice(WORDS)
            return t, ("val", atom(t))
        # a concatenation of characters, with escapes
        text = val = ""
        n = r.randint(1, 6)
        esc = False
        for k in range(n):
            y = r.random()
            if y < 0.4:
                c = r.choice(WORDS + NUMS + ["1", "a", "null", "true", "x"])
                text, val = text + c, val + c
            elif y < 0.65:
                c = r.choice("/-+.%*@?|$")
                text, val = text + c, val + c
            elif y < 0.9:
                c = r.choice("\\()[]{}:=, ")
                text, val, esc = text + "\\" + c, val + c, True
            elif y < 0.95 and colon:
                text, val, esc = text + ":", val + ":", True
            elif text and 0 < k < n - 1:
                c = r.choice([" ", "  "])
                # inside the element only: white space next to a separator is not part of it
                nxt = r.choice(WORDS)
                if text[-1:] in ("\\", ":"):
                    c = ""
                text, val = text + c + nxt, val + c + nxt
        if not text:
            text = val = "w"
        if re.search(r"[$:]\Z", text):
            text, val = text + "w", val + "w"
        if not esc:
            val = atom(val)
        return text, ("val", val)

    def quoted(self, d):
        r = self.r
        q = r.choice("'\"")
        n = r.choice([1, 1, 1, 2, 3])
        pieces = []
        for _ in range(n):
            if d > 0 and r.random() < 0.3:
                pieces.append(self.inter(d - 1))
            else:
                if pieces and isinstance(pieces[-1], str):
                    pieces[-1] += r.choice(QLITS)
                else:
                    pieces.append(r.choice(QLITS))
        text = q
        for k, p in enumerate(pieces):
            if isinstance(p, str):
                last = k + 1 == len(pieces)
                text += esc_quoted(p, q, not last, last)
            else:
                text += p[0]
        text += q
        tree = [p if isinstance(p, str) else p[1] for p in pieces]
        tree = [p for p in tree if p != ""]
        if not tree:
            return text, ("val", "")
        return text, ("quo", tree)

    def cat(self, d):
        """Unquoted concatenation with at least one interpolation and one literal."""
        r = self.r
        a = r.choice(WORDS + ["1", "-", "/", "null", ".5", ":", "x."])
        b = r.choice(WORDS + ["1", "-", "/", "null", ".5", "x."])
        t, tree = self.inter(d - 1)
        k = r.random()
        if k < 0.4:
            return a + t, ("cat", [a, tree])
        if k < 0.7 and b[0] not in " ":
            return t + b, ("cat", [tree, b])
        return a + t + b, ("cat", [a, tree, b])

    # -- whole strings
    def text(self, d=None):
        d = self.maxd if d is None else d
        r = self.r
        if r.random() < 0.5:
            t, tree = self.inter(d)
            return t, ("text", [tree])
        pieces, text = [], ""
        for _ in range(r.randint(1, 3)):
            if r.random() < 0.55:
                pieces.append(self.inter(d))
            else:
                lit = r.choice(QLITS + ["abc", "a/b", "x: ", "1", "?"])
                if pieces and isinstance(pieces[-1], str):
                    pieces[-1] += lit
                else:
                    pieces.append(lit)
        if all(isinstance(p, str) for p in pieces):
            pieces.append(self.inter(d))
        tree = []
        for k, p in enumerate(pieces):
            if isinstance(p, str):
                nxt = k + 1 < len(pieces)
                text += esc_top(p, nxt)
                if p:
                    tree.append(p)
            else:
                text += p[0]
                tree.append(p[1])
        return text, ("text", tree)


# --------------------------------------------------------------------------- evaluation
def str_of(x, env):
    if isinstance(x, Nd):
        return env.node_str(x)
    return env.value_str(x)


def evaluate(tree, env, here):
    """Value of a tree; here is the path of the node that holds the expression."""
    k = tree[0]
    if k == "val":
        return tree[1]
    if k in ("text", "quo"):
        p = tree[1]
        if len(p) == 1 and not isinstance(p[0], str):
            r = evaluate(p[0], env, here)
            return str_of(r, env) if k == "quo" else r
        return "".join(x if isinstance(x, str) else str_of(evaluate(x, env, here), env) for x in p)
    if k == "cat":
        return "".join(x if isinstance(x, str) else str_of(evaluate(x, env, here), env) for x in tree[1])
    if k == "list":
        return [env.plain(evaluate(x, env, here)) for x in tree[1]]
    if k == "dict":
        return {kk: env.plain(evaluate(x, env, here)) for kk, x in tree[1]}
    if k == "ref":
        steps = []
        for style, key in tree[2]:
            if not isinstance(key, str):
                key = evaluate(key, env, here)
                if not isinstance(key, str):
                    raise Err("keytype")
            steps.append(key)
        return env.ref(tree[1], steps, here)
    if k == "call":
        name = "".join(x if isinstance(x, str) else evaluate(x, env, here) for x in tree[1])
        args = [env.plain(evaluate(a, env, here)) for a, _ in tree[2]]
        return env.call(name, args, [t for _, t in tree[2]], here)
    raise AssertionError(tree)


class Env:
    """Evaluation against a plain rendering of the config.  trees: text of a string -> its tree."""

    def __init__(self, tree, trees, calls=None, node_str=None, is_missing=None):
        self.tree = tree
        self.trees = trees
        self.calls = calls or {}
        self._node_str = node_str
        self.stack = []

    def node_str(self, nd):
        return self._node_str(nd.path)

    def value_str(self, x):
        return str(x)

    def plain(self, x):
        return x

    def raw(self, path):
        t = self.tree
        for k in path:
            t = t[k]
        return t

    def value(self, path):
        """What reading the node at path gives."""
        v = self.raw(path)
        if type(v) in (dict, list):
            return Nd(path)
        if type(v) is str:
            if v == "???":
                raise Err("missing", path)
            if "${" in v:
                if path in self.stack:
                    raise Err("cycle", path)
                self.stack.append(path)
                try:
                    return evaluate(self.trees[v], self, path)
                finally:
                    self.stack.pop()
        return v

    def ref(self, dots, keys, here):
        if dots:
            if dots - 1 > len(here) - 1:
                raise Err("key", "above the root")
            base = here[: len(here) - dots]
        else:
            base = ()
        cur = base
        parts = []
        for k in keys:
            parts += [p for p in re.split(r"[.\[\]]", k) if p != ""] if re.search(r"[.\[\]]", k) else [k]
        for n, k in enumerate(parts):
            c = self.raw(cur)
            if type(c) is dict:
                if k not in c:
                    raise Err("key", cur + (k,))
                cur = cur + (k,)
            elif type(c) is list:
                try:
                    i = int(k)
                except ValueError:
                    raise Err("type", cur)
                if not 0 <= i < len(c):
                    raise Err("key", cur + (k,))
                cur = cur + (i,)
            else:
                raise AssertionError(c)
            v = self.value(cur)
            last = n + 1 == len(parts)
            if not last:
                if isinstance(v, Nd):
                    cur = v.path
                elif v is None:
                    raise Err("none", cur)  # a value of None on the way
                else:
                    raise Err("type", cur)
        if isinstance(v, Nd) and here[: len(v.path)] == v.path:
            raise Err("parent", cur)
        return v

    def call(self, name, args, texts, here):
        if name not in self.calls:
            raise Err("name", name)
        return self.calls[name](*args)
