"""What each property is checked on: groups of definitions with their inputs."""
import copy, itertools, json, os, random
import core
import lang
from lang import *

ASSUMPTIONS = [
    "user functions (mappers, middleware, validators) are pure",
    "production identifiers, memoization keys and tokens of a token set are unique within a grammar",
    "regular expressions are anchored; the specification interprets the subset the generator writes",
    "the end-of-file token is matched by the end-of-file production only",
    "builds have debug assertions, as the test suite has; C27 also runs a build without them",
]

class Types:
    """A token type with the values of structural and other tokens."""
    def __init__(self, tk, eof, toks, raws, ns, rev=False):
        self.__dict__.update(tk=tk, eof=eof, toks=toks, raws=raws, ns=ns, rev=rev)
        self.text = dict(zip(toks, ["a", "b", "c", "dd", "e"]))
        self.text.update(zip(raws, [" ", "#", "\n"]))
    def respell(self, toks, raws):
        """Longer spellings, some with characters of several bytes."""
        self.text.update(zip(self.toks, toks)); self.text.update(zip(self.raws, raws))
        return self
    def spell(self, t): return self.text[t] if isinstance(self.text[t], bytes) else self.text[t].encode()
    def lexer(self):
        return lexer(punc(*[(self.text[t], t) for t in self.toks]), const(*[(self.text[t], t) for t in self.raws]))
def types(rng, kind=None):
    kind = kind or rng.choice(["i8", "i8", "i16", "isize", "lx", "ck", "ck", "ck"])
    if kind == "ck":
        vals = rng.sample([0, 3, 5, 8, 13, 21, 34, 55, 89], 8)
        return Types("ck", vals[0], vals[1:5], vals[5:7], vals[5:7], rng.random() < .5)
    eof = {"i8": 127, "lx": 127, "i16": 32767, "isize": 2147483647}[kind]
    # zero is a structural token, too
    return Types(kind, eof, {"i8": [0, 1, 2, 3], "i16": [3, 0, 1, 2], "isize": [1, 2, 0, 3], "lx": [1, 2, 3, 4]}[kind], [-1, -2], [-1, -2])
SPELLINGS = [(["abc", "b", "ccc", "dd"], ["  ", "#"]), (["a", "bbbb", "c c", "d"], [" ", "####"]),
             (["é", "bé", "c\nc", "dddd"], ["\n", "€€"]), (["aaa", "b", "cc", "d"], ["   ", "\r\n"])]
def varied(rng, p=.4):
    """Types whose tokens are spelled with any number of bytes."""
    ty = types(rng)
    return ty.respell(*rng.choice(SPELLINGS)) if rng.random() < p else ty

def cut(g):
    """Symbols of a sentence worth keeping."""
    return 9 + 2 * max([0] + [len(nd["a"]) for nd in g if nd["k"] == "concat" and len(nd["a"]) > 4])

def only_memoized(g):
    """Productions which only a memoized one calls."""
    return [n for n in range(2, len(g) + 1) if [m["k"] for m in g if n in kids(m)] == ["cache"]]

# how many groups of each kind the quick checks take
SCALE = {"C01": 5, "C02": 6, "C11": 4, "C12": 3.5, "C13": 5, "C16": 6, "C17": 7, "C18": 6, "C19": 5, "C20": 5, "C22": 8,
         "C24": 5, "C25": 4, "C26": 4, "C28": 3, "C29": 8, "C31": 12}
class Fam:
    def __init__(self, prop, tier, rng):
        self.prop, self.tier, self.rng = prop, tier, rng
        self.quick = tier == "quick"
        self.groups, self.meta, self.machines = [], [], []
        self.machine_workers = 2
        self.hang = 20
        self.scale = SCALE.get(prop, 2.5)
    def n(self, q, t=None): return int(q * self.scale) if self.quick else (t or q * 12)
    def names(self):
        d = {}
        for g in self.groups: d[g.get("family", "")] = d.get(g.get("family", ""), 0) + max(1, len(g.get("inputs", g.get("defs", []))))
        return d
    def add(self, family, g, obs, **meta):
        g = dict(g, family=family)
        if "inputs" in g: g["inputs"] = [list(x) for x in g["inputs"]]
        self.groups.append(g); self.meta.append(dict(meta, obs=set(obs)))
        g["id"] = len(self.groups) - 1
        return g["id"]

    # ------------------------------------------------------ tokenizers
    def lex(self, family, lx, inputs, obs=("lex", "tile"), ctxs=None, ty=None, **kw):
        ty = ty or Types("i8", 127, [], [], [])
        g = {"mode": "lexonly", "tk": ty.tk, "eof": ty.eof, "ns": kw.pop("ns", ty.ns), "rev": ty.rev, "lexer": lx, "inputs": inputs}
        if ctxs: g["sweeplex"], g["ctxs"] = True, ctxs
        meta = {k: kw.pop(k) for k in ("history", "pair", "base", "release") if k in kw}
        g.update(kw)
        return self.add(family, g, obs, **meta)
    def lex_machine(self, ids, per=6, maxlen=6, cap=400):
        cases = []
        for i in ids:
            g = self.groups[i]
            for c in sorted(g["inputs"], key=len)[1:]:
                if len(c) <= maxlen: cases.append((i, c))
        self.rng.shuffle(cases)
        self.machines.append(("LexMachine", cases[:cap if self.quick else cap * 6], None))

    # -------------------------------------------------------- grammars
    def token_texts(self, g, ty, n, maxlen=2, space=.3, cap=14):
        rng = self.rng
        used = sorted({t for nd in g for t in ([nd["t"]] if nd["k"] == "tf" else [x[0] for x in nd["a"]] if nd["k"] == "tfs" else [])})
        pieces = [ty.spell(t) for t in used] or [b"a"]
        if not space: pieces = [ty.spell(t) for t in used if t in ty.toks] or [b"a"]
        allp = pieces + ([ty.spell(t) for t in ty.raws] if space else [])
        out = [b""]
        short = all_texts(pieces, maxlen)
        rng.shuffle(short)
        out += short[:cap]
        for _ in range(n):
            s = sentence(rng, g, 1, ty.spell, None, 5)[:cut(g)]
            if rng.random() < .5: s = mutate(rng, s, allp)
            t = []
            for p in s:
                while rng.random() < space: t.append(ty.spell(rng.choice(ty.raws)))
                t.append(p)
            while rng.random() < space: t.append(ty.spell(rng.choice(ty.raws)))
            out.append(b"".join(t))
        return list(dict.fromkeys(out))
    def char_texts(self, g, n, maxlen=3, cap=16, extra=(), chars=None):
        rng = self.rng
        lits = sorted({bytes(x) for nd in g for x in ([nd["s"]] if nd["k"] == "cst" else [y[0] for y in nd["a"]] if nd["k"] in ("csts", "pun") else [])})
        pieces = lits or [b"a", b"b"]
        out = [b""]
        short = all_texts(chars or ["a", "b"], maxlen); rng.shuffle(short)
        out += short[:cap]
        for _ in range(n):
            s = sentence(rng, g, 1, None, None, 5)[:cut(g)]
            if rng.random() < .5: s = mutate(rng, s, pieces + list(extra))
            out.append(b"".join(s))
        return list(dict.fromkeys(out))
    def cheap(self, g, ty, inputs, mode, budget=4000):
        """Inputs a parse of which does not take too many calls."""
        out = []
        spell = sorted(((ty.spell(t), t) for t in ty.toks + ty.raws), key=lambda x: -len(x[0])) if ty else []
        for code in inputs:
            toks, p = [], 0
            while mode != 2 and p < len(code):
                w, t = next((x for x in spell if code.startswith(x[0], p)), (b"?", None))
                toks.append(t); p += len(w)
            if calls(g, 1, mode, toks, code, ty.raws if ty else (), budget) < budget: out.append(code)
        return out
    def tok(self, family, g, ty, inputs, obs=("par", "ev"), **kw):
        meta = {k: kw.pop(k) for k in ("focus", "evmax", "dbgmax", "history", "pair", "base", "late", "release") if k in kw}
        d = {"mode": "tok", "tk": ty.tk, "eof": ty.eof, "ns": ty.ns, "rev": ty.rev, "lexer": kw.pop("lexer", None) or ty.lexer(),
             "grammar": g, "root": 1, "how": self.rng.choice(["init", "direct", "bld"]), "inputs": inputs,
             "ev": "ev" in obs, "sweep": "sw" in obs, "q": "q" in obs, "vw": "vw" in obs, "cap": 400}
        if "sw" in obs: d["raw"] = sorted({n for n, m in modes(g, 1) if m == 1})
        if "dbg" in obs: d["dbg"] = list(range(0, len(g) + 1))
        if "once" in obs: d["once"] = only_memoized(g)
        if "facts" in obs: d["facts"] = self.rng.sample(range(1, len(g) + 1), len(g))
        d.update(kw)
        return self.add(family, d, obs, **meta)
    def less(self, family, g, inputs, obs=("par", "ev"), **kw):
        meta = {k: kw.pop(k) for k in ("focus", "evmax", "dbgmax", "history", "pair", "base", "late", "release") if k in kw}
        d = {"mode": "less", "tk": self.rng.choice(["i8", "lx"]), "eof": 127, "ns": [], "grammar": g, "root": 1,
             "how": self.rng.choice(["init", "direct", "bld"]), "inputs": inputs, "ev": "ev" in obs, "sweep": "sw" in obs,
             "q": "q" in obs, "cap": 400}
        if "dbg" in obs: d["dbg"] = list(range(0, len(g) + 1))
        if "once" in obs: d["once"] = only_memoized(g)
        if "facts" in obs: d["facts"] = self.rng.sample(range(1, len(g) + 1), len(g))
        d.update(kw)
        return self.add(family, d, obs, **meta)
    def peg_machine(self, ids, per=8, maxlen=8):
        cases = []
        for i in ids:
            g = self.groups[i]
            if any(n["k"] == "tf" for n in g["grammar"]) and g["mode"] == "less": continue
            cs = [c for c in g["inputs"] if len(c) <= maxlen]
            self.rng.shuffle(cs)
            cases += [(i, c) for c in cs[:per]]
        self.rng.shuffle(cases)
        self.machines.append(("PegMachine", cases, None))

W_ALL = dict(concat=4, union=4, suf=2, list=1.2, sl=1.2, nul=2, hid=1, look=1, node=2, cache=1, val=.8, tf=4, tfs=1, eof=.4, null=.3)
W_LESS = dict(concat=4, union=4, suf=2, list=1.2, sl=1.2, nul=2, hid=1, look=1, node=2, cache=1, val=.8, cst=3, csts=1, pun=1, re=1, eof=.4, null=.3)
W_RAW = dict(W_ALL, ns=2, st=1)
LITS = ["a", "b", "c", "ab", "ba", "abb", "é", "abba", "a b", "A"]

def grammars(f, family, need, n, obs, weights=None, mode=0, root_kind=None, focus=None, evmax=40, ntexts=6, texts=None, space=.3, kw=None, **extra):
    """n random grammars with the productions `need`."""
    ids = []
    w = dict(weights or (W_LESS if mode == 2 else W_ALL))
    for k in need: w[k] = w.get(k, 1) * 2.5
    for _ in range(n):
        ty = varied(f.rng) if mode != 2 else None
        args = dict(depth=f.rng.choice([2, 3, 3, 4]), reuse=f.rng.choice([.05, .2, .35]))
        if mode == 2: args["lits"] = f.rng.sample(LITS, 3)
        else: args.update(toks=ty.toks[:f.rng.choice([2, 3, 4])], raws=ty.raws)
        args.update(kw or {})
        # many symbols, alternatives and suffixes
        if f.rng.random() < .15: args.update(wide=.6, maxnodes=24, limit=40, reuse=.1, depth=2)
        g = random_grammar(f.rng, mode, w, need=need, root_kind=root_kind, **args)
        if g is None: continue
        if mode == 2:
            ins = f.cheap(g, None, f.char_texts(g, ntexts), mode)
            ids.append(f.less(family, g, ins, obs, focus=focus, evmax=evmax, **extra))
        else:
            ins = f.cheap(g, ty, f.token_texts(g, ty, ntexts, space=space), mode)
            ids.append(f.tok(family, g, ty, ins, obs, focus=focus, evmax=evmax, **extra))
    return ids

def shifted(g, d):
    """The productions, numbered from d + 1."""
    out = []
    for nd in g:
        nd = copy.deepcopy(nd)
        for k in "els":
            if k in nd and isinstance(nd[k], int): nd[k] += d
        if nd["k"] in ("concat", "union"): nd["a"] = [x + d for x in nd["a"]]
        if nd["k"] == "suf": nd["a"] = [[x + d, v] for x, v in nd["a"]]
        out.append(nd)
    return out
def longs(f, need, n, mode=0, obs=("par", "ev"), weights=None, sizes=(270, 330), kw=None, put=None, evmax=12, **extra):
    """Texts of hundreds of bytes and tokens: a repetition of items."""
    rng = f.rng
    ids = []
    w = dict(weights or (W_LESS if mode == 2 else W_ALL))
    for k in need: w[k] = w.get(k, 1) * 2.5
    w["look"] = w.get("look", 1) * .5; w["eof"] = w["null"] = .05
    for _ in range(f.n(n)):
        ty = types(rng)
        args = dict(depth=rng.choice([2, 2, 3]), reuse=.1, maxnodes=10)
        if mode == 2: args["lits"] = rng.sample(LITS, 3)
        else: args.update(toks=ty.toks[:3], raws=ty.raws)
        args.update(kw or {})
        g0 = random_grammar(rng, mode, w, need=[x for x in need if x not in ("list", "sl")], minnodes=1, ok=lambda g: 1 not in nullset(g), **args)
        if not g0: continue
        leaf = (lambda t: {"k": "tf", "t": ty.toks[t], "v": 120 + t}) if mode != 2 else (lambda t: {"k": "cst", "s": B("xyz"[t]), "v": 120 + t})
        sep = rng.choice([None, 0, 1, 2])
        g = [{"k": "concat", "a": [2, 3, 4], "u": False}, {"k": "list", "e": 6} if sep is None else {"k": "sl", "e": 6, "s": 5, "inc": rng.random() < .5},
             {"k": "nul", "e": 5, "h": True}, {"k": "eof", "v": rng.choice([-1, 124])}, leaf(sep or 0)] + shifted(g0, 5)
        if not well_formed(g, 1, mode): continue
        sp = b"" if sep is None else ty.spell(ty.toks[sep]) if mode != 2 else b"xyz"[sep:sep + 1]
        texts = []
        for k in range(3):
            one = [sentence(rng, g0, 1, ty.spell, None, 4)[:6] or [b"a"] for _ in range(1 if k < 2 else 2)]
            size, t, j = rng.randint(*sizes), b"", 0
            while len(t) < size:
                gap = ty.spell(rng.choice(ty.raws)) if mode != 2 and rng.random() < .15 else b""
                t += (sp if j else b"") + gap + b"".join(one[j % len(one)]); j += 1
            texts.append(t)
            if k: texts.append(t + rng.choice([b"!", sp, b" ", b"a", b"b"]))
        texts = f.cheap(g, ty, list(dict.fromkeys(texts)), mode, 6000)
        if put: ids.append(put(g, ty, texts, mode)); continue
        mk = (lambda *a, **b: f.less(*a, **b)) if mode == 2 else (lambda nm, g, *a, **b: f.tok(nm, g, ty, *a, **b))
        ids.append(mk("long texts, " + "+".join(need), g, texts, obs, focus=set(need), evmax=evmax, late=True, **extra))
        f.groups[-1]["cap"] = 4000
    return ids

# ------------------------------------------------------------- tokenizers
DECO = ("map", "tmap", "mw")
ALLDECO = ("map", "tmap", "mw", "smix", "tmix")
def lexers(f, family, n, chars, texts, obs=("lex", "tile"), ctxs=None, types_=False, **kw):
    ids = []
    for k in range(n):
        lx = random_lexer(f.rng, chars, pool=f.rng.choice([None, None, [1, 2, -1, -2], [-1, -2, 3]]), **kw)
        ty = None
        if types_:
            ty = types(f.rng, f.rng.choice(["i8", "i16", "isize", "ck", "ck"]))
            if ty.tk == "ck": ty.ns = f.rng.sample(range(1, 61), 20)
        ids.append(f.lex(family, lx, texts(lx), obs, ctxs=ctxs, ty=ty))
    return ids
def some_texts(f, chars, maxlen, cap, longs=4, extra=()):
    short = all_texts(chars, maxlen)
    def make(lx):
        s = short if len(short) <= cap else [b""] + f.rng.sample(short, cap)
        return list(dict.fromkeys(s + [random_text(f.rng, list(chars) + list(extra), maxlen + 1, maxlen + 9) for _ in range(longs)]))
    return make

def c01(f):
    a = lexers(f, "any tokenizer", f.n(90), "ab", some_texts(f, "ab", 5, 40, 4, ["c", "\n"]), deco=ALLDECO, states=(0, 1), nlex=3, fallback=.8)
    b = lexers(f, "plain tokenizer", f.n(120), "ab", some_texts(f, "ab", 5, 40, 4), deco=DECO, nlex=3, fallback=.7, types_=True)
    c = lexers(f, "multi-byte", f.n(50), "aé\n", some_texts(f, "aé\n", 4, 40, 4, [b"\xc3", b"\xff"]), deco=ALLDECO, states=(0, 1, 2), fallback=.9)
    # the same token from different lexemes, insignificant tokens at the end
    d = []
    for k in range(f.n(60)):
        chars = f.rng.choice(["ab", "a ", "abc"])
        ts = f.rng.choice([[1, -1], [-1], [-1, -2], [1, 2, -1]])
        ls = [f.rng.choice([punc, const])((c, f.rng.choice(ts))) for c in chars]
        ls.insert(f.rng.randint(0, len(ls)), pat(f.rng.choice(ts), nonempty_regex(f.rng, chars, 1)))
        lx = lexer(*ls) if f.rng.random() < .5 else combined(0, [(0, ls), (1, ls[::-1])])
        d.append(f.lex("shared tokens", lx, some_texts(f, chars, 4, 30, 3)(lx), ty=types(f.rng, f.rng.choice(["i8", "i16", "isize"]))))
    for k in range(f.n(30)):
        ls = [pat(k + 1, nonempty_regex(f.rng, BYTES, 2)) for k in range(2)] + [pat(3, byt(BYTES[:4]))] * f.rng.randint(0, 1) + [pat(4, cls("a\n"))]
        d.append(f.lex("bytes which are not characters", lexer(*ls), some_texts(f, ["a", b"\xff", b"\xc3", b"\xa9"], 4, 40, 4)(None)))
    f.lex_machine(a + b + c + d)
    pumps(f)

def pumps(f):
    """Texts of thousands of bytes: what they give is what a short text gives, repeated or extended."""
    rng = f.rng
    def put(fam, lx, x, y, z, n, **kw):
        x, y, z = x.encode(), y.encode(), z.encode()
        def pair(run, gi):
            g = run.groups[gi]; out = run.meta[gi]["out"]
            first, toks, lexed, at = run.base(g, out[0])
            run.rec(gi, 0, g["inputs"][0], out[0], first + [["pump", len(x), len(y), n, out[1]["lex"]]], toks, lexed, at)
        f.lex(fam, lx, [x + y * 5 + z, x + y * (5 + n) + z], (), pair=pair, history=True, **kw)
    sizes = [100, 250, 253, 254, 255, 1000, 1021, 2045, 4093, 4094, 5000, 8200] if f.quick else [61, 125, 253, 509, 1021, 2045, 4093, 8189, 16381, 32765, 65533, 70000]
    words = [("", "a", ""), ("b", "a", "b"), ("", "a", "b"), ("ba", "ba", "b"), ("", "é", "a"), ("a", "\n", "b"), ("bb", "aab", "a!"), ("", "a", "!")]
    for k in range(f.n(40)):
        x, y, z = rng.choice(words)
        for n in rng.sample(sizes, 1 if k % 4 else 2):
            lx = rng.choice([
                lambda: lexer(pat(1, rep(cls("a"), 1)), pat(2, rep(cls("bé\n"), 1, 2))),
                lambda: lexer(pat(1, rep(cls("aé\n"), 1)), punc(("b", 2), ("bb", 3))),
                lambda: lexer(punc(("a", 1), ("b", 2), ("ab", 3)), const(("é", 4), ("\n", 5))),
                lambda: lexer(pat(1, rep(cls("!", True), 1))),
                lambda: lexer({"k": "map", "e": pat(1, rep(cls("ab"), 1)), "f": fields([("a", 2), ("aaa", 3)])}, pat(4, rep(cls("\né"), 1))),
                lambda: combined(0, [(0, [{"k": "smix", "e": punc(("a", 1), ("é", 2), ("\n", 3)), "a": [[1, {"k": "append", "s": 1, "d": False}]]}, pat(4, cls("b"))]),
                                     (1, [{"k": "smix", "e": punc(("b", 5)), "a": [[5, {"k": "switch", "s": 0, "d": False}]]}, pat(6, rep(cls("aé\n"), 1))])]),
            ])()
            put("long texts", lx, x, y, z, n)

def c02(f):
    a = lexers(f, "overlapping lexemes", f.n(90), "ab", some_texts(f, "ab", 5, 40, 4), deco=(), nlex=5, fallback=.4)
    b = lexers(f, "several lines", f.n(45), "ab\n", some_texts(f, "ab\n", 4, 45, 6, ["c", "é"]), deco=DECO, nlex=4, fallback=.5)
    c = lexers(f, "several states", f.n(45), "ab\n", some_texts(f, "ab\n", 4, 45, 6), deco=ALLDECO, states=(0, 1, 3), nlex=4, fallback=.6)
    d = lexers(f, "many lexemes", f.n(12), "abc", some_texts(f, "abc", 4, 40, 4), deco=DECO, nlex=18, fallback=.5)
    e = lexers(f, "states in any order", f.n(24), "ab", some_texts(f, "ab", 5, 40, 4), deco=ALLDECO, states=(7, 2, 250, 0), nlex=3, fallback=.6)
    f.lex_machine(a + b + c + d + e)

ONE = [[[], []]]
def c03(f):
    rng = f.rng
    ids = []
    for k in range(f.n(50)):
        chars = rng.choice(["ab", "ab", "abc", "aé", "a ", "a \t", "aA", "a.", "é€", "a\n", "+*", "e\u0301", "\\n", "(|", "😀a"])
        n = rng.randint(2, 7)
        ls = literals(rng, chars, n, 4)
        tok = counter()
        kind = rng.choice([punc, const, punc])
        lx = kind(*[(w, tok()) for w in ls])
        sh = list(ls); rng.shuffle(sh)
        other = kind(*[(w, ls.index(w) + 1) for w in sh])
        texts = all_texts(list(chars), 4 if len(chars) == 2 else 3)
        texts = rng.sample(texts, min(len(texts), 24)) + [(w + rng.choice([""] + list(chars))).encode() for w in ls]
        ids.append(f.lex("literals in two orders", lexer(lx, other), list(dict.fromkeys(texts)), ("lex", "ls"), ONE))
    for k in range(f.n(70)):
        chars = rng.choice(["ab", "abc", "aé", "a\nb", "a b", "aA", ".*+", BYTES])
        lx = pat(1, nonempty_regex(rng, chars, 3))
        chars = ["a", b"\xff", b"\xc3", b"\xa9"] if chars == BYTES else chars
        texts = all_texts(list(chars), 4 if len(chars) == 2 else 3)
        texts = rng.sample(texts, min(len(texts), 24)) + [random_text(rng, list(chars) + [b"\xff"], 4, 9) for _ in range(3)]
        ids.append(f.lex("patterns", lexer(lx), texts, ("lex", "ls"), ONE))
    # long literals, of which texts hold any part; many literals
    for k in range(f.n(40)):
        chars = rng.choice(["ab", "abc", "aé", "a", "a€"])
        words = ["".join(rng.choice(chars) for _ in range(rng.randint(5, 14))) for _ in range(rng.choice([1, 2, 3]))]
        ls = []
        for w in words:
            ls += [w[:j] for j in rng.sample(range(1, len(w) + 1), rng.randint(1, 4))]
            ls += [w[:rng.randint(1, len(w))] + rng.choice("abx") for _ in range(rng.choice([0, 1, 2]))]
        if rng.random() < .3: ls += literals(rng, "abcé", rng.choice([20, 40]), 4, 8)
        ls = list(dict.fromkeys(ls)); rng.shuffle(ls)
        lx = lambda kind: kind(*[(w, i + 1) for i, w in enumerate(ls)])
        texts = []
        for w in rng.sample(ls, min(len(ls), 6)) + words:
            j = rng.randint(0, len(w))
            texts += [w.encode(), (w[:j] + rng.choice(["", "x", "a", "b"])).encode(), (w[:j] + rng.choice(words)).encode()]
        texts = list(dict.fromkeys(texts))
        mapped = {"k": "map", "e": pat(90, rep(cls(chars + "x"), 1)), "f": fields([(w, i + 1) for i, w in enumerate(ls)])}
        ids.append(f.lex("long literals", lexer(lx(punc), lx(const), mapped), texts, ("lex", "ls"), ONE, ty=types(rng, rng.choice(["i8", "i16", "isize"]))))
        g = [{"k": "union", "a": [2, 3, 4], "u": False}, {"k": "csts", "a": [[B(w), i % 100] for i, w in enumerate(ls)]},
             {"k": "pun", "a": [[B(w), i % 100] for i, w in enumerate(reversed(ls))]}, {"k": "cst", "s": B(rng.choice(ls)), "v": 51}]
        f.less("long literals without tokens", g, texts, ("sw", "par"), evmax=60)
    # literal sets exhaustively: every subset of the words of one and two letters
    words = ["a", "b", "aa", "ab", "ba", "bb"] + ([] if f.quick else ["aab", "aba"])
    texts = all_texts("ab", 4)
    for m in range(1, 2 ** len(words)):
        ws = [w for i, w in enumerate(words) if m >> i & 1]
        ws.reverse() if m % 2 else None
        ids.append(f.lex("subsets of short literals", lexer((punc if m % 3 else const)(*[(w, i + 1) for i, w in enumerate(ws)])),
                         rng.sample(texts, 6 if f.quick else 20), ("lex", "ls"), ONE))
    # the same as productions without tokens
    for k in range(f.n(60)):
        ls = literals(rng, rng.choice(["ab", "abc", "aé", "a ", "aA", "a\n"]), rng.randint(2, 7), 4)
        r1 = regex(rng, "ab", 2)
        g = [{"k": "union", "a": [2, 3, 4, 5], "u": False}, {"k": "csts", "a": [[B(w), 10 + i] for i, w in enumerate(ls)]},
             {"k": "pun", "a": [[B(w), 30 + i] for i, w in enumerate(reversed(ls))]},
             {"k": "re", "re": r1, "src": source(r1), "v": 50}, {"k": "cst", "s": B(rng.choice(ls)), "v": 51}]
        texts = rng.sample(all_texts("ab", 4), 10) + [(w + rng.choice("abc")).encode() for w in ls]
        f.less("terminals without tokens", g, texts, ("sw", "par"), evmax=80)
    for k in range(f.n(15)):
        r1 = regex(rng, BYTES, 2)
        g = [{"k": "union", "a": [2, 3], "u": False}, {"k": "re", "re": r1, "src": source(r1), "v": 50}, {"k": "cst", "s": B("aé"), "v": 51}]
        f.less("terminals matching bytes", g, rng.sample(all_texts(["a", b"\xff", b"\xc3", b"\xa9"], 3), 20), ("sw", "par"), evmax=80)
    f.lex_machine(ids)
    pumps(f)

def stacky(f, rng, chars, states, nlex=3):
    """A tokenizer whose actions keep the stack busy and never pop an empty one too often."""
    tok = counter()
    sets = []
    for st in states:
        ls = []
        for c in rng.sample(list(chars), min(len(chars), nlex)):
            l = rng.choice([lambda: punc((c, tok())), lambda: const((c, tok()), (c + c, tok())), lambda: pat(tok(), rep(cls(c), 1))])()
            k = rng.random()
            if k < .55:
                acts = []
                for t in tokens_of(l):
                    a = action(rng, list(states), .25, ("append", "append", "append", "switch", "pop", "none"))
                    acts.append([t, a])
                l = {"k": "smix", "e": l, "a": acts}
            elif k < .75:
                l = decorate(rng, l, chars, tok, list(states), ("tmix",))
            if rng.random() < .2: l = decorate(rng, l, chars, tok, list(states), DECO)
            ls.append(l)
        if rng.random() < .8: ls.append(pat(tok(), cls(chars)))
        sets.append([st, ls])
    return {"k": "comb", "dflt": rng.choice(list(states)), "states": sets}
def c04(f):
    ids = []
    for k in range(f.n(150)):
        states = f.rng.choice([(0, 1), (0, 1, 2), (0, 5, 7), tuple(f.rng.sample(range(256), f.rng.randint(2, 5))), (3, 2, 1, 0), (255, 0)])
        chars = f.rng.choice(["ab", "abc", "abc"])
        lx = stacky(f, f.rng, chars, states)
        ids.append(f.lex("random actions", lx, some_texts(f, chars, 4, 25, 6)(lx), ("lex", "tile", "ls"),
                         [[[], []], [[[1, 0, 1], [1, 1, 2]], [0]], [[[3, 0, 1]], [states[1], 0]]] if f.rng.random() < .3 else None))
    # template literals: nested braces and quotes
    q = lambda s, d=False: {"k": "append", "s": s, "d": d}
    pop = lambda d=False: {"k": "pop", "s": 0, "d": d}
    for d in (False, True):
        main = [{"k": "smix", "e": punc(("{", 1), ("}", 2), ("`", 3), ("+", 4)), "a": [[1, q(0)], [2, pop()], [3, q(1)]]}, pat(5, rep(cls("ab"), 1))]
        tmpl = [{"k": "smix", "e": punc(("`", 6), ("${", 7), ("\\", 9)), "a": [[6, pop()], [7, q(0)], [9, {"k": "none", "s": 0, "d": d}]]},
                pat(8, rep(alt(cls("ab\\"), seq(lit("$"), cls("ab"))), 1))]
        lx = combined(0, [(0, main), (1, tmpl)])
        pieces = ["{", "}", "`", "${", "a", "b", "+", "\\"]
        texts = f.rng.sample(all_texts(pieces, 3), 120) + [random_text(f.rng, pieces, 4, 12) for _ in range(f.n(60))]
        texts += [b"`a${`b${a}`}b`", b"{`a${{a}+b}b`}", b"`${`${`a`}`}`+a"]
        ids.append(f.lex("template literals", lx, texts, ("lex", "tile")))
    f.lex_machine(ids)

def c05(f):
    rng = f.rng
    ids = []
    for k in range(f.n(110)):
        chars = rng.choice(["ab", "ab", "abc", "aé"])
        tok = counter()
        ls = []
        for _ in range(rng.randint(1, 2)):
            l = base_lexeme(rng, chars, tok)
            for _ in range(rng.randint(1, 3)): l = decorate(rng, l, chars, tok, [0, 1], ALLDECO if rng.random() < .4 else DECO)
            ls.append(l)
        ls.append(pat(tok(), cls(chars)))
        ts = sorted({t for l in ls for t in tokens_of(l)})
        ctxs = [[[], []], [[[rng.choice(ts), 0, 1]], [0]], [[[rng.choice(ts), 0, 2], [rng.choice(ts), 2, 3], [rng.choice(ts), 4, 6]], [1, 0]]]
        kind = "comb" if has_actions(ls) or rng.random() < .5 else "plain"
        lx = {"k": kind, "dflt": 0, "states": [[0, ls]] + ([[1, ls[::-1]]] if kind == "comb" else [])}
        ids.append(f.lex("decorators", lx, some_texts(f, chars, 4, 14, 3)(lx), ("lex", "ls"), ctxs, log=[], how=rng.choice(["bld", "direct"])))
    # every literal of a mapper against every text
    words = ["a", "b", "ab", "ba", "aa", "aab"]
    for k in range(f.n(40)):
        ws = rng.sample(words, rng.randint(1, 5))
        inner = rng.choice([pat(1, rep(cls("ab"), 1)), pat(1, rep(cls("ab"), 1, 2)), punc(("a", 1), ("ab", 2), ("b", 3)), const(("a", 1), ("ab", 2), ("ba", 4), ("b", 3))])
        lx = {"k": "map", "e": inner, "f": fields([(w, 20 + i) for i, w in enumerate(ws)])}
        ids.append(f.lex("mappers", lexer(lx), rng.sample(all_texts("ab", 4), 12), ("lex", "ls"), ONE, how=rng.choice(["bld", "direct"])))
    f.lex_machine(ids)

# ---------------------------------------------------------- parse semantics
def three_modes(f, need, focus, n=30, evmax=24, weights=None, rawn=None, kw=None, obs=("par", "ev", "sw"), space=.3, raw=True):
    name = "+".join(need)
    w = lambda base: dict(base, **(weights or {}))
    a = grammars(f, name + ", structural", need, f.n(n), obs, weights=w(W_ALL), focus=focus, evmax=evmax, kw=kw, space=space)
    b = grammars(f, name + ", lexerless", need, f.n(n), obs, weights=w(W_LESS), mode=2, focus=focus, evmax=evmax, kw=kw)
    c = grammars(f, name + ", raw sections", need + ["ns"], f.n(rawn or n * 2 // 3), obs, weights=w(W_RAW), focus=focus, evmax=evmax, kw=kw, space=.5) if raw else []
    longs(f, need, n // 12, weights=w(W_ALL), kw=kw)
    longs(f, need, n // 12, 2, weights=w(W_LESS), kw=kw)
    if raw: longs(f, need + ["ns"], n // 12, weights=w(W_RAW), kw=kw)
    return a + b + c
def nested(f, kinds, share, modes_=(0, 1, 2)):
    """Every way of putting something under one of the kinds of productions, two levels deep, in every mode."""
    rng = f.rng
    def builders(add, x, y, z):
        """Named ways of making a production from another."""
        nul = lambda e, h: add({"k": "nul", "e": e, "h": h})
        con = lambda *a: add({"k": "concat", "a": list(a), "u": False})
        uni = lambda *a: add({"k": "union", "a": list(a), "u": False})
        V = itertools.count(30)
        v = lambda: next(V)
        fn = lambda k, **kw: dict({"k": k, "n": 1, "v": 11, "b": 0, "s": "V:n"}, **kw)
        return {
            "nul": [lambda e: nul(e, False), lambda e: nul(e, True)],
            "hid": [lambda e: add({"k": "hid", "e": e})],
            "node": [lambda e: add({"k": "node", "e": e, "v": v()})],
            "look": [lambda e: add({"k": "look", "e": e, "v": v()}), lambda e: add({"k": "look", "e": e, "v": -1}), lambda e: con(add({"k": "look", "e": e, "v": -1}), nul(e, True))],
            "list": [lambda e: add({"k": "list", "e": e}), lambda e: add({"k": "list", "e": uni(e, z(v()))})],
            "sl": [lambda e: add({"k": "sl", "e": e, "s": z(v()), "inc": False}), lambda e: add({"k": "sl", "e": e, "s": z(v()), "inc": True}),
                   lambda e: add({"k": "sl", "e": z(v()), "s": e, "inc": False}), lambda e: add({"k": "sl", "e": z(v()), "s": e, "inc": True})],
            "union": [lambda e: uni(e, z(v())), lambda e: uni(z(v()), e), lambda e: uni(con(e, z(v())), e), lambda e: uni(e, nul(z(v()), False))],
            "concat": [lambda e: con(e, z(v())), lambda e: con(z(v()), e), lambda e: con(e, e), lambda e: con(nul(z(v()), False), e), lambda e: con(e)],
            "suf": [lambda e: add({"k": "suf", "l": e, "a": [[z(v()), v()]], "st": True, "u": False}), lambda e: add({"k": "suf", "l": e, "a": [[z(v()), v()]], "st": False, "u": False}),
                    lambda e: add({"k": "suf", "l": z(v()), "a": [[e, v()], [y(v()), v()]], "st": True, "u": False}), lambda e: add({"k": "suf", "l": z(v()), "a": [[y(v()), v()], [e, v()]], "st": False, "u": False})],
            "cache": [lambda e: add({"k": "cache", "e": e, "key": v()})],
            "val": [lambda e: add({"k": "val", "e": e, "fn": fn(rng.choice(["min", "has", "unmin", "unhas"]))})],
            "leaf": [lambda e: x(11), lambda e: y(12), lambda e: x(-1)],
            "empty": [lambda e: add({"k": "null", "v": 13}), lambda e: add({"k": "null", "v": -1}), lambda e: add({"k": "eof", "v": 14}), lambda e: add({"k": "eof", "v": -1})],
        }
    names = builders(None, None, None, None)
    inner = [(k, j) for k in names for j in range(len(names[k]))]
    outer = [(k, j) for k in kinds for j in range(len(names[k]))]
    todo = [(m, o, a, b) for m in modes_ for o in outer for a in inner for b in inner if b[0] in ("leaf", "empty") or a[0] not in ("leaf", "empty")]
    rng.shuffle(todo)
    ids, seen = [], set()
    for m, o, a, b in todo:
        # all pairs, then so many triples
        if (m, o, a) in seen and len(ids) >= f.n(share): continue
        ty = types(rng)
        g = [{"k": "concat", "a": [], "u": False}]
        add = lambda nd: (g.append(nd), len(g))[1]
        sy = ty.toks if m != 1 else (ty.raws * 3)
        def leaf(i):
            if m == 2: return lambda v: add({"k": "cst", "s": B(ty.text[ty.toks[i]]), "v": v})
            return lambda v: add({"k": "tf", "t": sy[i], "v": v})
        bs = builders(add, leaf(0), leaf(1), leaf(2))
        e = leaf(0)(11)
        for k, j in (b, a, o): e = bs[k][j](e)
        tail = [add({"k": "nul", "e": leaf(1)(21), "h": rng.random() < .5})] if rng.random() < .6 else []
        if m == 1:
            st = lambda i, v: add({"k": "tf", "t": ty.toks[i], "v": v})
            e = add({"k": "ns", "e": add({"k": "concat", "a": [e] + tail, "u": False}) if tail else e, "fill": rng.random() < .3})
            # inside, and before, other structural tokens
            g[0]["a"] = [st(0, 22), e, st(1, 23), add({"k": "eof", "v": -1})] if rng.random() < .8 else [e, st(0, 22), st(1, 23), add({"k": "eof", "v": -1})]
        else: g[0]["a"] = [e] + tail + [add({"k": "eof", "v": -1})]
        gg = prune(g, 1)
        if not well_formed(gg, 1, 0 if m != 2 else 2): continue
        seen.add((m, o, a))
        if m == 1:
            raws = [ty.spell(t) for t in ty.raws]
            A, Z = ty.spell(ty.toks[0]), ty.spell(ty.toks[1])
            mid = all_texts(raws, 3)
            texts = [A + x + Z for x in mid[:1] + rng.sample(mid, min(len(mid), 7))] + [x + A + Z for x in rng.sample(mid, 2)] + [A + Z + mid[1], A, b""]
        else:
            w = [ty.text[t] for t in ty.toks[:3]]
            texts = [b""] + [w[0].encode() if isinstance(w[0], str) else w[0]] + rng.sample(all_texts(w, 3), 9)
        texts = list(dict.fromkeys(texts))
        obs = ("par", "ev", "sw")
        fam = "two levels, " + ("structural", "raw", "lexerless")[m]
        ids.append(f.less(fam, gg, f.cheap(gg, None, texts, 2), obs, evmax=14) if m == 2 else f.tok(fam, gg, ty, f.cheap(gg, ty, texts, 0), obs, evmax=14))
    return ids
def c06(f):
    ids = three_modes(f, ["union"], {"union"}, 60)
    rng = f.rng
    # overlapping alternatives, every order
    for k in range(f.n(25)):
        ty = types(rng)
        t = ty.toks
        alts = [[1], [1, 2], [2], [1, 1], [1, 2, 1], []]
        pick = rng.sample(range(len(alts)), rng.choice([2, 3, 4]))
        g = [{"k": "concat", "a": [2, 3], "u": False}, None, {"k": "nul", "e": 4, "h": False}, {"k": "tf", "t": t[0], "v": 7},
             {"k": "tf", "t": t[1], "v": 8}]
        top = []
        for p in pick:
            if not alts[p]: g.append({"k": "null", "v": 0}); top.append(len(g)); continue
            g.append({"k": "concat", "a": [{1: 4, 2: 5}[x] for x in alts[p]], "u": False}); c = len(g)
            g.append({"k": "node", "e": c, "v": 20 + p}); top.append(len(g))
        g[1] = {"k": "union", "a": top, "u": False}
        ids.append(f.tok("orders of alternatives", g, ty, all_texts([ty.spell(t[0]), ty.spell(t[1])], 4), ("par", "ev"), focus={"union"}))
    ids += nested(f, ["union"], 90)
    f.peg_machine(ids)
def c07(f):
    f.peg_machine(three_modes(f, ["concat"], {"concat"}, 60, kw=dict(reuse=.35)) + nested(f, ["concat"], 90))
def c08(f):
    rng = f.rng
    ids = three_modes(f, ["list"], {"list"}, 34)
    ids += three_modes(f, ["sl"], {"sl"}, 34)
    # items and separators which may match nothing, systematically
    items = ["a", "a?", "ab", "a|b", "a?b?", "null", "=a"]
    seps = ["c", "c?", "b", "cc", "null"]
    for it in items:
        for sp in seps + [None]:
            for inc in (False, True) if sp else (False,):
                for mode in (0, 2):
                    ty = types(rng)
                    g = [{"k": "concat", "a": [2, 3], "u": False}, None, {"k": "nul", "e": 4, "h": True}]
                    leaf = lambda c: (g.append({"k": "tf", "t": ty.toks["abc".index(c)], "v": 40 + "abc".index(c)} if mode == 0 else {"k": "cst", "s": B(c), "v": 40 + "abc".index(c)}), len(g))[1]
                    leaf("b")
                    def mk(x):
                        if x == "null": g.append({"k": "null", "v": 0}); return len(g)
                        if x[0] == "=": e = leaf(x[1]); g.append({"k": "look", "e": e, "v": 50}); return len(g)
                        if "|" in x: a = [leaf(y) for y in x.split("|")]; g.append({"k": "union", "a": a, "u": False}); return len(g)
                        parts = []
                        for c in x:
                            if c == "?": g.append({"k": "nul", "e": parts[-1], "h": rng.random() < .5}); parts[-1] = len(g)
                            else: parts.append(leaf(c))
                        if len(parts) == 1: return parts[0]
                        g.append({"k": "concat", "a": parts, "u": False}); return len(g)
                    e = mk(it)
                    g[1] = {"k": "sl", "e": e, "s": mk(sp), "inc": inc} if sp else {"k": "list", "e": e}
                    if not well_formed(g, 1, mode): continue
                    texts = [b""] + rng.sample(all_texts("abc", 4), 10 if f.quick else 60) + [b"a", b"aca", b"acac", b"aa", b"abcab", b"acca"]
                    if mode == 0: ids.append(f.tok("items and separators", g, ty, texts, ("par", "ev"), focus={"sl", "list"}, evmax=12))
                    else: ids.append(f.less("items and separators", g, texts, ("par", "ev"), focus={"sl", "list"}, evmax=12))
    ids += nested(f, ["list", "sl"], 60)
    f.peg_machine(ids)
def c09(f):
    ids = []
    for k in ("nul", "hid", "node"): ids += three_modes(f, [k], {k}, 22, evmax=20)
    ids += three_modes(f, ["eof"], {"eof", "null"}, 18, evmax=20, weights={"eof": 2, "null": 2})
    ids += nested(f, ["nul", "hid", "node"], 90)
    f.peg_machine(ids)
def c10(f):
    f.peg_machine(three_modes(f, ["suf"], {"suf"}, 60) + nested(f, ["suf"], 90))
def c11(f):
    f.peg_machine(three_modes(f, ["look"], {"look"}, 60) + nested(f, ["look"], 90))
def c12(f):
    ids = three_modes(f, ["val"], {"val"}, 45, kw=dict(valfns=("min", "has", "byte", "min", "has", "byte", "unmin", "unhas")))
    for m in ("union", "nul", "list", "sl", "suf", "look", "cache"):
        ids += grammars(f, "validation under " + m, ["val", m], f.n(10), ("par", "ev"), weights=W_ALL, evmax=14, kw=dict(valfns=("min", "has", "byte")))
        ids += grammars(f, "validation under " + m, ["val", m], f.n(10), ("par", "ev"), weights=W_LESS, mode=2, evmax=14, kw=dict(valfns=("min", "has", "byte")))
    # what fails to be valid without consuming anything, under every kind of production, at every position
    rng = f.rng
    for k in range(f.n(60)):
        mode = rng.choice([0, 2])
        ty = types(rng)
        g = [{"k": "concat", "a": [], "u": False}]
        add = lambda nd: (g.append(nd), len(g))[1]
        leaf = lambda c, v: add({"k": "tf", "t": ty.toks["abc".index(c)], "v": v} if mode != 2 else {"k": "cst", "s": B(ty.text[ty.toks["abc".index(c)]]), "v": v})
        opt = lambda e, h=None: add({"k": "nul", "e": e, "h": rng.random() < .5 if h is None else h})
        empty = lambda: rng.choice([lambda: opt(leaf("a", 11)), lambda: opt(leaf("a", 12), False), lambda: add({"k": "null", "v": 0}), lambda: add({"k": "null", "v": -1}),
                                    lambda: add({"k": "eof", "v": 13}), lambda: add({"k": "look", "e": leaf("a", 14), "v": 15})])()
        fn = lambda: rng.choice([{"k": "has", "v": 0}, {"k": "has", "v": 13}, {"k": "has", "v": 15}, {"k": "min", "n": 1}, {"k": "min", "n": 2}, {"k": "unhas", "v": 0}, {"k": "unmin", "n": 1}])
        val = lambda: add({"k": "val", "e": empty(), "fn": dict({"n": 1, "v": 0, "b": 0, "s": "V:n"}, **fn())})
        def under(e):
            return rng.choice([lambda: opt(e), lambda: add({"k": "hid", "e": e}), lambda: add({"k": "look", "e": e, "v": 21}), lambda: add({"k": "node", "e": e, "v": 22}),
                               lambda: add({"k": "union", "a": [e, leaf("b", 23)], "u": False}), lambda: add({"k": "union", "a": [leaf("b", 24), e], "u": False}),
                               lambda: add({"k": "list", "e": e}), lambda: add({"k": "sl", "e": e, "s": leaf("c", 25), "inc": rng.random() < .5}),
                               lambda: add({"k": "sl", "e": leaf("a", 26), "s": e, "inc": rng.random() < .5}), lambda: add({"k": "list", "e": add({"k": "concat", "a": [leaf("c", 27), e], "u": False})}),
                               lambda: add({"k": "suf", "l": e, "a": [[leaf("b", 28), 29]], "st": True, "u": False}), lambda: add({"k": "suf", "l": leaf("b", 30), "a": [[e, 31], [leaf("a", 32), 33]], "st": True, "u": False}),
                               lambda: add({"k": "concat", "a": [e, opt(leaf("c", 34))], "u": False}), lambda: add({"k": "cache", "e": e, "key": len(g)})])()
        e = val()
        for _ in range(rng.choice([1, 2, 3])): e = under(e)
        g[0]["a"] = [opt(leaf("b", 41)), e, opt(leaf("c", 42)), add({"k": "eof", "v": -1})]
        if not well_formed(g, 1, mode): continue
        w = [ty.text[t] for t in ty.toks[:3]]
        texts = [b""] + rng.sample(all_texts(w, 3), 14)
        ids.append(f.tok("validation of nothing", g, ty, texts, ("par", "ev"), evmax=16) if mode == 0 else f.less("validation of nothing", g, texts, ("par", "ev"), evmax=16))
    # the second or third of several similar things is invalid
    for k in range(f.n(50)):
        mode = rng.choice([0, 2])
        ty = types(rng)
        g = [{"k": "concat", "a": [], "u": False}]
        add = lambda nd: (g.append(nd), len(g))[1]
        leaf = lambda c, v: add({"k": "tf", "t": ty.toks["abc".index(c)], "v": v} if mode != 2 else {"k": "cst", "s": B(ty.text[ty.toks["abc".index(c)]]), "v": v})
        u = lambda *a: add({"k": "union", "a": list(a), "u": False})
        some = u(leaf("a", 11), leaf("b", 12)) if rng.random() < .7 else u(add({"k": "concat", "a": [leaf("a", 11), leaf("b", 12)], "u": False}), leaf("a", 13), leaf("b", 14))
        val = lambda: add({"k": "val", "e": some, "fn": dict({"n": 2, "v": rng.choice([11, 12]), "b": 0, "s": "V:x"}, k=rng.choice(["has", "has", "min", "unhas"]))})
        c = lambda: leaf("c", 25)
        e = rng.choice([lambda: add({"k": "list", "e": val()}), lambda: add({"k": "sl", "e": val(), "s": c(), "inc": True}), lambda: add({"k": "sl", "e": val(), "s": c(), "inc": False}),
                        lambda: add({"k": "sl", "e": c(), "s": val(), "inc": rng.random() < .5}), lambda: add({"k": "suf", "l": val(), "a": [[val(), 31], [c(), 32]], "st": True, "u": False}),
                        lambda: add({"k": "concat", "a": [val(), add({"k": "nul", "e": val(), "h": False}), c()], "u": False}),
                        lambda: add({"k": "list", "e": u(add({"k": "concat", "a": [c(), val()], "u": False}), val())})])()
        if rng.random() < .5: e = add({"k": rng.choice(["nul", "hid", "cache", "node"]), "e": e, "h": False, "v": 40, "key": 9})
        tail = rng.choice([[], [c()], [add({"k": "nul", "e": c(), "h": True})]])
        r1 = add({"k": "concat", "a": [e] + tail + [add({"k": "eof", "v": -1})], "u": False})
        r2 = add({"k": "concat", "a": [add({"k": "list", "e": u(leaf("a", 51), leaf("b", 52), leaf("c", 53))}), add({"k": "eof", "v": -1})], "u": False})
        g[0] = {"k": "union", "a": [r1, r2], "u": False}
        if not well_formed(g, 1, mode): continue
        w = [ty.text[t] for t in ty.toks[:3]]
        texts = [b""] + rng.sample(all_texts(w, 3), 16) + [random_text(rng, w, 4, 6) for _ in range(6)]
        ids.append(f.tok("one of several is invalid", g, ty, texts, ("par", "ev"), evmax=20) if mode == 0 else f.less("one of several is invalid", g, texts, ("par", "ev"), evmax=20))
    ids += nested(f, ["val"], 60)
    f.peg_machine(ids)
def c13(f):
    ids = grammars(f, "raw sections", ["ns"], f.n(80), ("par", "ev", "sw"), weights=W_RAW, focus={"ns", "st"}, evmax=24, space=.6)
    ids += grammars(f, "structural within raw sections", ["ns", "st"], f.n(70), ("par", "ev", "sw"), weights=dict(W_RAW, st=3), focus={"ns", "st"}, evmax=24, space=.6)
    # every placement of insignificant tokens around a raw section
    rng = f.rng
    for k in range(f.n(30)):
        ty = types(rng)
        a, b, _, _ = ty.toks; w, c = ty.raws
        body = rng.choice(["w", "w+", "w?", "w|c", "wc", "w+a"])
        g = [{"k": "concat", "a": [2, 3, 4], "u": False}, {"k": "tf", "t": a, "v": 1}, {"k": "ns", "e": 5, "fill": rng.random() < .5},
             {"k": "tf", "t": b, "v": 2}]
        leaf = lambda t, v: (g.append({"k": "tf", "t": t, "v": v}), len(g))[1]
        add = lambda nd: (g.append(nd), len(g))[1]
        g2 = {"w": lambda: leaf(w, 11), "w+": lambda: add({"k": "list", "e": len(g) + 2}) and leaf(w, 11), "w?": lambda: add({"k": "nul", "e": len(g) + 2, "h": False}) and leaf(w, 11),
              "w|c": lambda: add({"k": "union", "a": [len(g) + 2, len(g) + 3], "u": False}) and leaf(w, 11) and leaf(c, 12),
              "wc": lambda: add({"k": "concat", "a": [len(g) + 2, len(g) + 3], "u": False}) and leaf(w, 11) and leaf(c, 12),
              "w+a": lambda: add({"k": "concat", "a": [len(g) + 2, len(g) + 4], "u": False}) and add({"k": "list", "e": len(g) + 2}) and leaf(w, 11) and leaf(a, 13)}
        g2[body]()
        texts = [b"".join(x) for x in itertools.product([b"", b" "], [b"a"], [b"", b" ", b"#", b" #", b"# ", b"  ", b" a"], [b"b", b""], [b"", b"#"])]
        ids.append(f.tok("placements", g, ty, rng.sample(texts, 24), ("par", "ev"), evmax=12))
    f.peg_machine(ids)

# ----------------------------------------------------------------- pairs
def without(g, kind):
    """The same grammar with the wrappers of one kind replaced by what they wrap."""
    def real(n):
        while g[n - 1]["k"] == kind: n = g[n - 1]["e"]
        return n
    out = []
    for nd in g:
        nd = copy.deepcopy(nd)
        if "e" in nd: nd["e"] = real(nd["e"])
        if "l" in nd: nd["l"] = real(nd["l"])
        if nd["k"] == "sl": nd["s"] = real(nd["s"])
        if nd["k"] in ("concat", "union"): nd["a"] = [real(x) for x in nd["a"]]
        if nd["k"] == "suf": nd["a"] = [[real(x), v] for x, v in nd["a"]]
        out.append(nd)
    return prune(out, real(1))
def same_as(other, keys=("par",)):
    """The outputs of two groups on the same inputs are equal."""
    def pair(run, gi):
        a, b = run.meta[other].get("out"), run.meta[gi]["out"]
        g = run.groups[gi]
        if a is None: return
        for ii, (x, y) in enumerate(zip(a, b)):
            first, toks, lexed, at = run.base(g, y)
            r = list(first)
            for k in keys:
                if k in x or k in y: r.append(["is", x.get(k, "absent"), y.get(k, "absent")])
            r += [["par", y["par"]]] if "par" in y and g["mode"] != "lexonly" and y.get("calls", 0) < 6000 else []
            run.rec(gi, ii, g["inputs"][ii], y, r, toks, lexed, at)
    return pair
def quiet(run, gi): pass

def memo_all(rng, g, p=.5):
    """Memoize productions at random: every reference to some of them goes through a cache."""
    g = copy.deepcopy(g)
    n0, key, to = len(g), 0, {}
    for n in range(1, n0 + 1):
        if g[n - 1]["k"] in ("cache", "null", "eof") or rng.random() > p: continue
        key += 1
        g.append({"k": "cache", "e": n, "key": key}); to[n] = len(g)
    m = lambda n: to.get(n, n)
    for nd in g[:n0]:
        if "e" in nd: nd["e"] = m(nd["e"])
        if "l" in nd: nd["l"] = m(nd["l"])
        if nd["k"] == "sl": nd["s"] = m(nd["s"])
        if nd["k"] in ("concat", "union"): nd["a"] = [m(x) for x in nd["a"]]
        if nd["k"] == "suf": nd["a"] = [[m(x), v] for x, v in nd["a"]]
    return g
def c14(f):
    rng = f.rng
    ids = []
    W0 = {k: v for k, v in W_ALL.items() if k != "cache"}
    L0 = {k: v for k, v in W_LESS.items() if k != "cache"}
    for k in range(f.n(110)):
        mode = rng.choice([0, 0, 2])
        ty = types(rng)
        kw = dict(reuse=.4, depth=rng.choice([3, 4])) if mode == 0 else dict(reuse=.4, depth=3, lits=rng.sample(LITS, 3))
        if mode == 0: kw.update(toks=ty.toks[:3], raws=ty.raws)
        g = random_grammar(rng, mode, dict(L0 if mode == 2 else W0, union=6, concat=5), need=["union"], **kw)
        if not g: continue
        gm = memo_all(rng, g, rng.choice([.3, .7, 1]))
        if not well_formed(gm, 1, mode): continue
        texts = f.char_texts(g, 6) if mode == 2 else f.token_texts(g, ty, 6)
        add = (lambda g, **kw: f.less("memoized at random", g, texts, (), **kw)) if mode == 2 else (lambda g, **kw: f.tok("memoized at random", g, ty, texts, (), **kw))
        plain = add(g, pair=quiet)
        ids.append(add(gm, pair=same_as(plain, ("par", "lex"))))
    # long texts: many keys and many positions
    def put(g, ty, texts, mode):
        gm = memo_all(rng, g, rng.choice([.7, 1]))
        if not well_formed(gm, 1, mode): return None
        add = (lambda g, **kw: f.less("memoized, long texts", g, texts, (), **kw)) if mode == 2 else (lambda g, **kw: f.tok("memoized, long texts", g, ty, texts, (), **kw))
        plain = add(g, pair=quiet)
        return add(gm, pair=same_as(plain, ("par", "lex")))
    for mode in (0, 2):
        W0 = {k: v for k, v in (W_LESS if mode == 2 else W_ALL).items() if k != "cache"}
        longs(f, ["union"], 14, mode, weights=dict(W0, union=7, concat=6), put=put, kw=dict(reuse=.4, depth=3, maxnodes=14))
        longs(f, ["union"], 3, mode, weights=dict(W0, union=7, concat=6), put=put, kw=dict(reuse=.4, depth=3, maxnodes=14), sizes=(530, 560))
    ids += grammars(f, "memoized, every call", ["cache", "union"], f.n(40), ("par", "ev"), weights=dict(W_ALL, cache=4), focus={"cache"}, evmax=24, kw=dict(reuse=.4))
    ids += grammars(f, "memoized, every call", ["cache", "union"], f.n(30), ("par", "ev"), weights=dict(W_LESS, cache=4), mode=2, focus={"cache"}, evmax=24, kw=dict(reuse=.4))
    ids += nested(f, ["cache"], 60, (0, 2))
    # a memoized production is not tried twice at a position
    for k in range(f.n(60)):
        mode = rng.choice([0, 2])
        ty = types(rng)
        kw = dict(reuse=.4, depth=rng.choice([3, 4])) if mode == 0 else dict(reuse=.4, depth=3, lits=rng.sample(LITS, 3))
        if mode == 0: kw.update(toks=ty.toks[:3], raws=ty.raws)
        g = random_grammar(rng, mode, dict(L0 if mode == 2 else W0, union=6, concat=6, suf=3), need=["union", "concat"], **kw)
        if not g: continue
        gm = memo_all(rng, g, 1)
        if not well_formed(gm, 1, mode): continue
        texts = (f.char_texts(g, 6) if mode == 2 else f.token_texts(g, ty, 6, space=.15)) + [b"".join(sentence(rng, g, 1, (lambda x: bytes(x)) if mode == 2 else ty.spell, None, 7)) for _ in range(4)]
        texts = f.cheap(gm, None if mode == 2 else ty, list(dict.fromkeys(texts)), mode)
        if mode == 2: f.less("memoized, called again", gm, texts, ("par", "once"))
        else: f.tok("memoized, called again", gm, ty, texts, ("par", "once"))
    f.peg_machine(ids)
def c15(f):
    rng = f.rng
    ids = grammars(f, "optional and structural alternatives", ["union", "nul"], f.n(50), ("par", "sw"), weights=dict(W_ALL, union=7, suf=4, nul=4, null=1), focus={"union", "suf"}, evmax=30)
    ids += grammars(f, "raw and structural alternatives", ["union", "ns"], f.n(50), ("par", "sw"), weights=dict(W_RAW, union=7, suf=4, ns=4, nul=3), focus={"union", "suf"}, evmax=30, space=.6)
    ids += grammars(f, "suffixes", ["suf", "nul"], f.n(40), ("par", "sw"), weights=dict(W_RAW, union=3, suf=7, ns=2, nul=4), focus={"suf"}, evmax=30, space=.5)
    ids += grammars(f, "structural alternatives in raw sections", ["union", "ns", "st"], f.n(40), ("par", "ev", "sw"), weights=dict(W_RAW, union=7, suf=4, ns=2, st=4), focus={"union", "suf"}, evmax=30, space=.6)
    # nested choices of nothing, the end and tokens, before tokens
    W = dict(concat=5, union=5, suf=3, list=1.5, sl=3, nul=4, eof=2, null=2, tf=3, look=.7, hid=.5, node=.5, val=.4, tfs=.5, cache=.2)
    for k in range(f.n(140)):
        ty = types(rng)
        g = random_grammar(rng, 0, W, need=["union"], root_kind=rng.choice(["union", "union", "concat", "suf"]), toks=ty.toks[:rng.choice([1, 2, 3])],
                           raws=ty.raws, depth=rng.choice([3, 4]), reuse=rng.choice([.05, .2]), maxnodes=12)
        if not g: continue
        sp = [ty.spell(t) for t in ty.toks[:3]]
        texts = rng.sample(all_texts(sp, 3), 18) + [ty.spell(ty.raws[0]), ty.spell(ty.raws[0]) + sp[0]] + f.token_texts(g, ty, 5, cap=0)
        ids.append(f.tok("nested choices", g, ty, list(dict.fromkeys([b""] + texts)), ("par", "sw"), focus={"union", "suf"}, evmax=20))
    # every order of a few kinds of alternatives
    for k in range(f.n(40)):
        ty = types(rng)
        a, b, c, _ = ty.toks; w, h = ty.raws
        g = [{"k": "concat", "a": [2, 3], "u": False}, None, {"k": "nul", "e": 4, "h": False}, {"k": "tf", "t": c, "v": 1}]
        add = lambda nd: (g.append(nd), len(g))[1]
        tf = lambda t, v: add({"k": "tf", "t": t, "v": v})
        makers = {
            "a": lambda: tf(a, 11), "b": lambda: tf(b, 12), "a?": lambda: add({"k": "nul", "e": tf(a, 13), "h": False}),
            "a?b": lambda: add({"k": "concat", "a": [add({"k": "nul", "e": tf(a, 14), "h": True}), tf(b, 15)], "u": False}),
            "ns w": lambda: add({"k": "ns", "e": tf(w, 16), "fill": rng.random() < .5}),
            "ns w b": lambda: add({"k": "concat", "a": [add({"k": "ns", "e": tf(w, 17), "fill": False}), tf(b, 18)], "u": False}),
            "ns h|w a": lambda: add({"k": "concat", "a": [add({"k": "ns", "e": add({"k": "tfs", "a": [[w, 19], [h, 20]]}), "fill": False}), tf(a, 21)], "u": False}),
            "=a": lambda: add({"k": "look", "e": tf(a, 22), "v": 23}), "=a a": lambda: add({"k": "concat", "a": [add({"k": "look", "e": tf(a, 24), "v": -1}), tf(a, 25)], "u": False}),
            "null": lambda: add({"k": "null", "v": 0}), "eof": lambda: add({"k": "eof", "v": 26}),
            "[a|null,b] c": lambda: add({"k": "concat", "a": [add({"k": "sl", "e": add({"k": "union", "a": [tf(a, 31), add({"k": "null", "v": 0})], "u": False}), "s": tf(b, 32), "inc": rng.random() < .5}), tf(c, 33)], "u": False}),
            "(eof|a?) b": lambda: add({"k": "concat", "a": [add({"k": "union", "a": [add({"k": "eof", "v": 34}), add({"k": "nul", "e": tf(a, 35), "h": rng.random() < .5})], "u": False}), tf(b, 36)], "u": False}),
            "eof? c": lambda: add({"k": "concat", "a": [add({"k": "nul", "e": add({"k": "eof", "v": 37}), "h": rng.random() < .5}), tf(c, 38)], "u": False}),
            "null b?": lambda: add({"k": "concat", "a": [add({"k": "null", "v": -1}), add({"k": "nul", "e": tf(b, 39), "h": True})], "u": False}),
            "(a suf)": lambda: add({"k": "suf", "l": add({"k": "nul", "e": tf(a, 42), "h": True}), "a": [[tf(b, 43), 44], [add({"k": "null", "v": 0}), 45]], "st": rng.random() < .5, "u": False}),
            "b+": lambda: add({"k": "list", "e": tf(b, 27)}), "[a?,b]": lambda: add({"k": "sl", "e": add({"k": "nul", "e": tf(a, 28), "h": True}), "s": tf(b, 29), "inc": rng.random() < .5}),
            "v(a)": lambda: add({"k": "val", "e": tf(a, 30), "fn": {"k": "unmin", "n": rng.randint(1, 2), "v": 0, "b": 0, "s": "V:x"}}),
        }
        names = rng.sample(sorted(makers), rng.choice([2, 3, 4, 5]))
        alts = [makers[n]() for n in names]
        if rng.random() < .6: g[1] = {"k": "union", "a": alts, "u": False}
        else: g[1] = {"k": "suf", "l": add({"k": "nul", "e": tf(rng.choice(ty.toks), 40), "h": True}) if rng.random() < .5 else tf(b, 41), "a": [[x, 60 + i] for i, x in enumerate(alts)], "st": rng.random() < .5, "u": False}
        texts = [b"".join(x) for x in itertools.product([b"", b" ", b"#", b"# "], [b"", b"a", b"b", b"c"], [b"", b" ", b"#"], [b"", b"a", b"b", b"c"])]
        ids.append(f.tok("kinds of alternatives", g, ty, rng.sample(list(dict.fromkeys(texts)), 26), ("par", "sw"), focus={"union", "suf"}, evmax=12))
    f.peg_machine(ids)
def c16(f):
    obs = ("par", "span", "ev")
    ids = grammars(f, "spans, structural", ["node"], f.n(60), obs, weights=dict(W_ALL, node=4, nul=3, suf=3), evmax=16, space=.5)
    ids += grammars(f, "spans, lexerless", ["node"], f.n(50), obs, weights=dict(W_LESS, node=4, nul=3, suf=3), mode=2, evmax=16)
    ids += grammars(f, "spans, raw sections", ["node", "ns"], f.n(50), obs, weights=dict(W_RAW, node=4, nul=3, suf=3, ns=3), evmax=16, space=.6)
    f.peg_machine(ids)
def c17(f):
    rng = f.rng
    ids = []
    for k in range(f.n(150)):
        lits = rng.choice([["a", "b", "c"], ["a", "b", "c"], ["ab", "ba", "c"], ["aa", "ab", "b"], ["é", "a", "bb"]])
        kinds = {k: v for k, v in W_ALL.items()}
        g = random_grammar(rng, 0, kinds, toks=[1, 2, 3], raws=[], depth=rng.choice([2, 3, 4]), reuse=rng.choice([.1, .3]))
        if not g: continue
        h = copy.deepcopy(g)
        for nd in h:
            if nd["k"] == "tf": nd.update(k="cst", s=B(lits[nd.pop("t") - 1]))
            elif nd["k"] == "tfs": nd.update(k=rng.choice(["csts", "pun"]), a=[[B(lits[t - 1]), v] for t, v in nd["a"]]); nd.pop("same", None)
        texts = [b""] + rng.sample(all_texts(lits, 3), 14)
        for _ in range(8):
            s = sentence(rng, h, 1, None, None, 5)[:cut(h) + 1]
            texts.append(b"".join(mutate(rng, s, [x.encode() for x in lits]) if rng.random() < .5 else s))
        texts = list(dict.fromkeys(texts))
        ty = Types("i8", 127, [1, 2, 3], [], [])
        lx = lexer(punc(*[(w, i + 1) for i, w in enumerate(lits)]))
        a = f.tok("tokenized twin", g, ty, texts, (), lexer=lx, pair=quiet)
        def pair(run, gi, a=a):
            for ii, (x, y) in enumerate(zip(run.meta[a]["out"], run.meta[gi]["out"])):
                if max(x.get("calls", 0), y.get("calls", 0)) > 6000: continue
                run.rec(gi, ii, run.groups[gi]["inputs"][ii], y, [["bare", x["par"], y["par"]], ["par", y["par"]]])
                t = run.groups[a]
                first, toks, lexed, at = run.base(t, x)
                run.rec(a, ii, t["inputs"][ii], x, first + [["par", x["par"]]], toks, lexed, at)
        ids.append(f.less("lexerless twin", h, texts, (), pair=pair))
    f.peg_machine(ids)
def c18(f):
    rng = f.rng
    obs = ("par",)
    ids = grammars(f, "errors, structural", ["union"], f.n(80), obs, weights=dict(W_ALL, union=5, concat=6, look=1.5), ntexts=14)
    ids += grammars(f, "errors, lexerless", ["union"], f.n(80), obs, weights=dict(W_LESS, union=5, concat=6, look=1.5), mode=2, ntexts=14)
    ids += grammars(f, "errors, raw sections", ["union", "ns"], f.n(40), obs, weights=dict(W_RAW, union=5, concat=6), ntexts=14, space=.5)
    # texts of several lines with multi-byte characters
    for k in range(f.n(40)):
        g = random_grammar(rng, 2, W_LESS, lits=["a", "é", "\n", "a\n"], depth=3)
        if g: ids.append(f.less("lines and multi-byte characters", g, f.char_texts(g, 12, extra=[b"\xc3", "€".encode(), b"\n"], chars=["a", "é", "\n"]), obs))
        ty = types(rng)
        ty.text[ty.toks[0]] = "é"; ty.text[ty.raws[0]] = "\n"; ty.text[ty.toks[3]] = "a\n"
        g = random_grammar(rng, 0, W_ALL, toks=ty.toks, raws=ty.raws, depth=3)
        if g: ids.append(f.tok("lines and multi-byte characters", g, ty, f.token_texts(g, ty, 14, space=.5), obs))
    f.peg_machine(ids)
def c19(f):
    rng = f.rng
    pieces = ["a", "\n", "é", "\r\n", "\r", b"\xff", "\t", "\u2028", "\x0b", "\x0c", "\u0085"]
    texts = all_texts(["a", "\n"], 6) + all_texts(["a", "\n", "é"], 4) + all_texts(["a", "\n", "\r"], 4)
    texts += [random_text(rng, pieces, 5, 30) for _ in range(f.n(300))]
    texts = list(dict.fromkeys(texts))
    for k in range(0, len(texts), 40):
        for rev in (False, True):
            f.add("offsets forwards" if not rev else "offsets backwards", {"mode": "code", "rev": rev, "inputs": texts[k:k + 40]}, ("pos", "posl"))
    # texts of tens of thousands of bytes, at some offsets
    for n in ([300, 5000, 33000, 70000] if f.quick else [130, 300, 1100, 5000, 20000, 33000, 66000, 70000, 140000]):
        for unit in (["a"] * 60 + ["\n"], ["\n"], ["aé", "\n"], ["a"], ["a" * 300, "\n"], ["a"] * 200 + ["\n\n"]):
            t = b""
            while len(t) < n: t += random_text(rng, unit, 100, 200)
            t = t[:n]
            at = [0, 1, n - 1, n, n // 2] + [rng.randint(0, n) for _ in range(12)] + [x for b in (255, 256, 257, 32767, 32768, 65535, 65536, 65537) for x in [b] if x <= n]
            at += [x + 1 for x in at if x < n and t[x:x + 1] == b"\n"][:4]
            rng.shuffle(at)
            f.add("long texts", {"mode": "code", "rev": False, "inputs": [t], "at": at}, ("posl",))
    # positions shown by errors
    for k in range(f.n(60)):
        lx = lexer(punc(("a", 1), ("b", 2)), const(("\n", 3), ("é", 4), ("\r", 5), ("\t", 6)))
        f.lex("tokenizer errors", lx, [random_text(rng, ["a", "b", "\n", "é", "a", "b", "\n", "c", "\r", "\t"], 3, 14) for _ in range(12)], ("lex",))
    g = [{"k": "list", "e": 2}, {"k": "tfs", "a": [[1, 1], [3, 2]]}]
    ty = Types("i8", 127, [1, 2, 3, 4], [-1, -2], [-1, -2])
    ty.text.update({3: "\n", 2: "é", -1: "\n\n", -2: "\r"})
    for k in range(f.n(8)):
        f.tok("parser errors", [{"k": "concat", "a": [2, 4], "u": False}] + [{"k": "list", "e": 3}, {"k": "tfs", "a": [[1, 1], [3, 2]]}, {"k": "eof", "v": -1}], ty,
              [random_text(rng, ["a", "\n", "é", "dd", "\n\n", "\r", "\r\n"], 2, 12) for _ in range(40)], ("par",))
        h = [{"k": "concat", "a": [2, 4], "u": False}, {"k": "list", "e": 3}, {"k": "csts", "a": [[B("a"), 1], [B("\n"), 2], [B("é"), 3], [B("\r"), 4], [B("\t"), 5]]}, {"k": "eof", "v": -1}]
        f.less("parser errors", h, [random_text(rng, ["a", "\n", "é", "\n", "\r", "\t", b"\xff", "€", "c"], 2, 12) for _ in range(40)], ("par",))

# ------------------------------------------------------------ definitions
def cyclic_ok(g):
    """Every cycle passes through a production whose symbols are assigned later."""
    plain = lambda n: [x for x in kids(g[n - 1])] if g[n - 1]["k"] not in ("concat", "union", "suf") else []
    return not any(n in closure(plain(n), plain) for n in range(1, len(g) + 1))
def random_graph(rng, n, kinds, mode, unset=.03):
    g = []
    for i in range(n):
        k = rng.choice(kinds)
        o = lambda: rng.randint(1, n)
        nd = {"k": k}
        if k == "tf": nd.update(t=rng.randint(1, 3), v=1)
        elif k == "tfs": nd.update(a=[[1, 1], [2, 2]])
        elif k in ("eof", "null"): nd.update(v=rng.choice([-1, 0]))
        elif k == "cst": nd.update(s=B("a"), v=1)
        elif k in ("csts", "pun"): nd.update(a=[[B("a"), 1]] + ([[[], 2]] if rng.random() < .3 and k == "csts" else []))
        elif k == "re":
            r = regex(rng, "ab", 1); nd.update(re=r, src=source(r), v=1)
        elif k in ("concat", "union"): nd.update(a=[o() for _ in range(rng.randint(1, 3))], u=rng.random() < unset)
        elif k == "suf": nd.update(l=o(), a=[[o(), 5] for _ in range(rng.randint(1, 2))], st=rng.random() < .5, u=rng.random() < unset)
        elif k == "sl": nd.update(e=o(), s=o(), inc=rng.random() < .5)
        elif k == "nul": nd.update(e=o(), h=rng.random() < .5)
        elif k in ("look", "node"): nd.update(e=o(), v=3)
        elif k == "cache": nd.update(e=o(), key=i + 1)
        elif k == "ns": nd.update(e=o(), fill=rng.random() < .5)
        elif k == "val": nd.update(e=o(), fn={"k": "ok", "n": 0, "v": 0, "b": 0, "s": ""})
        else: nd.update(e=o())
        g.append(nd)
    return g
def c20(f):
    rng = f.rng
    ty = Types("i8", 127, [1, 2, 3, 4], [-1, -2], [-1, -2])
    T0 = ["tf", "tf", "tf", "tfs", "eof", "null"]
    L0 = ["cst", "cst", "csts", "pun", "re", "eof", "null"]
    wr = ["list", "sl", "nul", "hid", "look", "node", "cache", "val", "ns", "st"]
    def put(fam, g, mode):
        d = {"mode": "build", "tk": "i8", "eof": 127, "ns": [-1, -2], "grammar": g, "root": 1, "how": "init"}
        if mode == 0:
            d["lexer"] = ty.lexer()
            f.add(fam, d, ("build",))
        else: f.add(fam, dict(d, mode="build", lexer=ty.lexer()), ("build",))
    done = 0
    while done < f.n(1500):
        mode = rng.choice([0, 0, 2])
        n = rng.randint(2, 9)
        kinds = (T0 if mode == 0 else L0) * rng.choice([1, 2]) + ["concat", "union", "suf"] * rng.choice([1, 2, 3]) + rng.sample(wr, rng.randint(0, 6))
        g = random_graph(rng, n, kinds, mode, rng.choice([0, 0, .05]))
        if not cyclic_ok(g): continue
        put("random graphs", g, mode); done += 1
    # chains of leftmost symbols with one loop
    done = 0
    while done < f.n(700):
        n = rng.randint(2, 6)
        g = []
        for i in range(n):
            nxt = i + 2 if i + 1 < n else rng.randint(1, n)
            k = rng.choice(["concat", "concat", "union", "suf", "nul", "node", "hid", "list", "sl", "look", "val", "cache", "ns"])
            term = n + rng.randint(1, 4)
            if k == "concat":
                pre = [n + rng.randint(1, 4) for _ in range(rng.randint(0, 2))]
                nd = {"a": pre + [nxt] + [term] * rng.randint(0, 1), "u": False}
            elif k == "union": nd = {"a": [term] * rng.randint(0, 1) + [nxt], "u": False}
            elif k == "suf": nd = {"l": nxt, "a": [[term, 5]], "st": rng.random() < .5, "u": False} if rng.random() < .5 else {"l": term, "a": [[n + 1, 4], [nxt, 5]], "st": rng.random() < .5, "u": False}
            elif k == "sl": nd = {"e": nxt, "s": term, "inc": False} if rng.random() < .5 else {"e": term, "s": nxt, "inc": rng.random() < .5}
            elif k == "nul": nd = {"e": nxt, "h": False}
            elif k in ("node", "look"): nd = {"e": nxt, "v": 3}
            elif k == "cache": nd = {"e": nxt, "key": i + 1}
            elif k == "ns": nd = {"e": nxt, "fill": False}
            elif k == "val": nd = {"e": nxt, "fn": {"k": "ok", "n": 0, "v": 0, "b": 0, "s": ""}}
            else: nd = {"e": nxt}
            g.append(dict(nd, k=k))
        g += [{"k": "tf", "t": 1, "v": 1}, {"k": "nul", "e": n + 1, "h": False}, {"k": "null", "v": -1}, {"k": "tfs", "a": [[1, 1]]}]
        if not cyclic_ok(g): continue
        put("loops", g, 0); done += 1
    # exhaustive: three productions, each a sequence or choice of at most two of them and a token or an optional token
    T = [{"k": "tf", "t": 1, "v": 1}, {"k": "nul", "e": 3, "h": False}]
    shapes = [(k, a) for k in ("concat", "union") for a in [[x] for x in (1, 2, 3, 4)] + [[x, y] for x in (1, 2, 3, 4) for y in (1, 2, 3, 4)]]
    allg = [[{"k": k, "a": a, "u": False}, {"k": l, "a": b, "u": False}] + T for k, a in shapes for l, b in shapes]
    for g in (rng.sample(allg, 600) if f.quick else allg): put("two productions, a token and an optional token", g, 0)

def c21(f):
    rng = f.rng
    obs = ("par",)
    junk = ["a", "b", "c", "dd", " ", "#", "x", "é", b"\xff", b"\xe2\x82", b"\xf0\x9f", "\n", b"\x00", "€"]
    def texts(n): return list(dict.fromkeys([b""] + [random_text(rng, junk, 0, 8) for _ in range(n)]))
    for k in range(f.n(60)):
        ty = types(rng)
        w = dict(W_RAW, list=3, sl=3, nul=4)
        g = random_grammar(rng, 0, w, toks=ty.toks, raws=ty.raws, depth=rng.choice([3, 4]), reuse=.35)
        if g:
            lx = ty.lexer()
            if rng.random() < .7: lx["states"][0][1].append(pat(ty.toks[2], cls("x", True)))
            f.tok("any bytes, structural", g, ty, texts(12) + f.token_texts(g, ty, 4), obs, lexer=lx, log=rng.choice([[], [], [5, 4, 3, 2]]))
        g = random_grammar(rng, 2, dict(W_LESS, list=3, sl=3, nul=4), lits=rng.sample(LITS, 3), depth=rng.choice([3, 4]), reuse=.35)
        if g: f.less("any bytes, lexerless", g, texts(12) + f.char_texts(g, 4), obs, log=rng.choice([[], [], [5, 4, 3, 2]]))
    for k in range(f.n(60)):
        chars = rng.choice(["ab", "aé\n", "ab#"])
        lx = random_lexer(rng, chars, deco=ALLDECO, states=rng.choice([(0,), (0, 1), (0, 1, 2)]), fallback=.8)
        f.lex("any bytes, tokenizers", lx, texts(10) + [random_text(rng, list(chars) + [b"\xff"], 0, 12) for _ in range(10)], ("lex",))
    # repetition in a linear grammar: long texts, and the number of calls stays linear
    for k in range(f.n(16)):
        ty = types(rng)
        a, b, c, d = ty.toks
        inner = rng.choice([[{"k": "tf", "t": a, "v": 1}], [{"k": "nul", "e": 5, "h": True}, {"k": "tf", "t": a, "v": 1}], [{"k": "look", "e": 5, "v": -1}, {"k": "tf", "t": a, "v": 1}]])
        body = rng.choice([{"k": "list", "e": 4}, {"k": "sl", "e": 4, "s": 3, "inc": rng.random() < .5}])
        g = [{"k": "concat", "a": [2, 3], "u": False}, body, {"k": "nul", "e": 4 + len(inner), "h": True}] + inner + [{"k": "tf", "t": b, "v": 2}]
        if not well_formed(g, 1, 0): continue
        f.tok("long texts", g, ty, [b"a" * 400, b"ab" * 200, b" a" * 300 + b" ", b"a" * 399 + b"c", b" " * 500], ("ret", "big"), cap=0)
    # nesting
    for mode in (0, 2):
        ty = Types("i8", 127, [1, 2, 3, 4], [-1, -2], [-1, -2])
        t = (lambda c: {"k": "tf", "t": "abc".index(c) + 1, "v": 1}) if mode == 0 else (lambda c: {"k": "cst", "s": B(c), "v": 1})
        g = [{"k": "concat", "a": [2, 5], "u": False}, {"k": "union", "a": [3, 6], "u": False}, {"k": "concat", "a": [4, 2, 7], "u": False}, t("a"), {"k": "eof", "v": -1}, t("b"), t("c")]
        for n in (1, 5, 50, 300):
            ins = [b"a" * n + b"b" + b"c" * n, b"a" * n + b"b" + b"c" * (n - 1), b"a" * n + b"b" + b"c" * (n + 1)]
            o = ("par",) if n < 10 else ("ret", "big")
            f.tok("nesting", g, ty, ins, o, cap=0) if mode == 0 else f.less("nesting", g, ins, o, cap=0)
    f.peg_machine([i for i, g in enumerate(f.groups) if "any bytes" in g["family"] and "grammar" in g and "states" in str(g.get("lexer", {"states": 0}))][:0] or
                  [i for i, g in enumerate(f.groups) if g["family"] == "any bytes, lexerless"], maxlen=5)
    f.hang = 20

def c22(f):
    rng = f.rng
    ids = []
    for k in range(f.n(110)):
        ty = types(rng)
        W = {k: v for k, v in W_ALL.items() if k not in ("ns", "st")}
        # a validation looking at bytes behind a token would see what is inserted there
        g = random_grammar(rng, 0, W, toks=ty.toks[:rng.choice([2, 3, 4])], raws=ty.raws, odd=.12, depth=rng.choice([2, 3, 4]), valfns=("ok", "min", "has", "unmin", "unhas"))
        if not g: continue
        base = f.token_texts(g, ty, 8, space=0)
        ins, of = [], []
        spell = sorted({ty.spell(t) for t in ty.toks + ty.raws}, key=len, reverse=True)
        for s in f.cheap(g, ty, base, 0):
            b = len(ins); ins.append(s); of.append(b)
            parts, p = [], 0
            while p < len(s):
                w = next(x for x in spell if s.startswith(x, p)); parts.append(w); p += len(w)
            gaps = [b"", b" ", b"#", b" #", b"  "]
            for v in range(2):
                pad = [rng.choice(gaps) for _ in range(len(parts) + 1)] if v else [b" "] * (len(parts) + 1)
                ins.append(b"".join(x + y for x, y in zip(pad, parts + [b""]))); of.append(b)
        def pair(run, gi, of=of):
            out, g = run.meta[gi]["out"], run.groups[gi]
            for ii, y in enumerate(out):
                x = out[of[ii]]
                if y.get("calls", 0) > 6000: continue
                first, toks, lexed, at = run.base(g, y)
                run.rec(gi, ii, g["inputs"][ii], y, first + ([["shape", x["lex"][1], x["par"], y["par"]]] if not lexed and x["lex"][0] == 0 else [["is", 0, "tokenizing failed"]]), toks, lexed, at)
        ids.append(f.tok("padded texts", g, ty, ins, (), pair=pair))
    f.peg_machine(ids)

def c23(f):
    rng = f.rng
    ids = []
    def twin(family, make, texts, keys):
        order = list(range(len(texts))) * 2
        rng.shuffle(order)
        fresh = make(texts, fresh=True, pair=quiet)
        def pair(run, gi):
            a, b, g = run.meta[fresh]["out"], run.meta[gi]["out"], run.groups[gi]
            for ii, k in enumerate(order):
                x, y = a[k], b[ii]
                first, toks, lexed, at = run.base(g, y)
                run.rec(gi, ii, g["inputs"][ii], y, list(first) + [["is", x.get(k2, "absent"), y.get(k2, "absent")] for k2 in keys], toks, lexed, at)
        ids.append(make([texts[k] for k in order], pair=pair, history=True))
    for k in range(f.n(70)):
        mode = rng.choice([0, 0, 1, 2])
        ty = types(rng)
        if mode == 2:
            g = random_grammar(rng, 2, dict(W_LESS, cache=2), need=["union"], lits=rng.sample(LITS, 3), reuse=.3)
            if g: twin("lexerless", lambda t, **kw: f.less("history, lexerless", g, t, ("dbg",), ev=True, **kw), f.char_texts(g, 6, cap=8), ("par", "dbg", "ev"))
        else:
            g = random_grammar(rng, 0, dict(W_RAW if mode else W_ALL, suf=4, cache=2 if not mode else 0), need=["union"], toks=ty.toks, raws=ty.raws, reuse=.3)
            if g: twin("tokenized", lambda t, **kw: f.tok("history, tokenized", g, ty, t, ("dbg",), ev=True, **kw), f.token_texts(g, ty, 6, cap=8), ("lex", "par", "dbg", "ev"))
    for k in range(f.n(40)):
        lx = random_lexer(rng, "ab", deco=ALLDECO, states=(0, 1), fallback=.8)
        texts = rng.sample(all_texts("ab", 5), 14)
        order = texts * 2; rng.shuffle(order)
        f.lex("history, tokenizers", lx, order, ("lex",), history=True)
    f.peg_machine(ids)
def c24(f):
    ids = grammars(f, "debugging, structural", [], f.n(60), ("dbg", "par"), weights=W_ALL, ntexts=4, kw=dict(maxnodes=9), space=.5)
    ids += grammars(f, "debugging, lexerless", [], f.n(45), ("dbg", "par"), weights=W_LESS, mode=2, ntexts=4, kw=dict(maxnodes=9))
    ids += grammars(f, "debugging, raw sections", ["ns"], f.n(35), ("dbg", "par"), weights=W_RAW, ntexts=4, kw=dict(maxnodes=9), space=.6)
    f.peg_machine(ids)
def c25(f):
    obs = ("q", "par")
    W = {"kw": dict(hidden=.05)}
    grammars(f, "queries, structural", ["node"], f.n(60), obs, weights=dict(W_ALL, node=5, list=2, sl=2, look=.3, hid=.3), ntexts=8, **W)
    grammars(f, "queries, lexerless", ["node"], f.n(40), obs, weights=dict(W_LESS, node=5, list=2, sl=2, look=.3, hid=.3), mode=2, ntexts=8, **W)
    rng = f.rng
    # few values, deep trees
    for k in range(f.n(60)):
        g = random_grammar(rng, 2, dict(concat=4, union=2, node=5, nul=2, list=2, sl=1, suf=2, cst=3, csts=1), lits=["a", "b"], depth=5, reuse=.35, hidden=.05)
        if not g: continue
        for nd in g:
            if "v" in nd and nd["v"] > 0: nd["v"] = nd["v"] % 3 + 1
            if nd["k"] in ("csts", "suf"): nd["a"] = [[x, v % 3 + 1 if v > 0 else v] for x, v in nd["a"]]
        f.less("repeated values", g, f.char_texts(g, 12), obs)
    f.peg_machine([i for i, g in enumerate(f.groups) if g["family"] != "repeated values"])
def c26(f):
    rng = f.rng
    ids = []
    for k in range(f.n(70)):
        ty = types(rng)
        pieces = [ty.spell(t) for t in ty.toks + ty.raws]
        texts = [b""] + [random_text(rng, pieces, 0, 7) for _ in range(10)] + [b"a", b" ", b" a", b"a ", b"  ", b" a#"]
        ids.append(f.lex("views", ty.lexer(), list(dict.fromkeys(texts)), ("lex", "vw", "view"), ty=ty, ns=ty.ns, vw=True))
    # tokens of any length
    for k in range(f.n(16)):
        ty = types(rng)
        w = lambda c: c * rng.choice([1, 2, 7, 15, 16, 17, 31, 33])
        ty.respell([w("a"), w("b"), w("c"), "d"], [w(" "), w("#")])
        pieces = [ty.spell(t) for t in ty.toks + ty.raws]
        ids.append(f.lex("views, long tokens", ty.lexer(), list(dict.fromkeys([random_text(rng, pieces, 1, 6)[:140] for _ in range(8)])), ("lex", "vw", "view"), ty=ty, ns=ty.ns, vw=True))
    for k in range(f.n(3)):
        ty = types(rng)
        pieces = [ty.spell(t) for t in ty.toks + ty.raws]
        ids.append(f.lex("views, many tokens", ty.lexer(), [random_text(rng, pieces, 24, 40) for _ in range(3)], ("lex", "vw", "view"), ty=ty, ns=ty.ns, vw=True))
    ty = Types("i8", 127, [1, 2, 3, 4], [-1, -2], [-1, -2])
    ids.append(f.lex("views of every short text", ty.lexer(), all_texts(["a", " ", "dd"], 4), ("lex", "vw", "view"), ty=ty, ns=ty.ns, vw=True))
    f.lex_machine(ids)
def c27(f):
    rng = f.rng
    ids = []
    bad = [b"\xff", b"\xc3", "é".encode(), b"\xe2\x82", b"\n"]
    for k in range(f.n(90)):
        mode = rng.choice([0, 0, 1, 2])
        ty = types(rng)
        log = [rng.choice([[5], [4], [3], [2], [1], [5, 0, 3, 2], [0, 4, 1, 2, 3], [2, 5, 5]])][0]
        if mode == 2:
            g = random_grammar(rng, 2, W_LESS, lits=rng.sample(LITS, 3), depth=3)
            if not g: continue
            texts = f.char_texts(g, 6, cap=6, extra=bad)
            texts += [t + rng.choice(bad) for t in texts[:5]]
            texts = list(dict.fromkeys(texts))
            mk = lambda **kw: f.less("logs, lexerless", g, texts, ("dbg",), ev=True, how="init", **kw)
        else:
            g = random_grammar(rng, 0, W_RAW if mode else W_ALL, toks=ty.toks, raws=ty.raws, depth=3)
            if not g: continue
            lx = ty.lexer()
            if rng.random() < .3:
                # tokens, also insignificant ones, which are not characters
                ls = lx["states"][0][1]
                for t in rng.sample(ty.toks + ty.raws, 3):
                    b = rng.choice([[0xff], [0xc3], [0xe2, 0x82], [0x80]])
                    ls.append(pat(t, seq(*[byt([x]) for x in b]))); ty.text[t] = bytes(b)
            if rng.random() < .5:
                lx["states"][0][1].append(pat(ty.toks[1], rng.choice([rep(cls("x"), 1), rep(byt([0xff, 0xc3]), 1), byt([0, 97], True)])))
                lx["states"][0][1].append({"k": "mw", "e": const(("é", ty.toks[0])), "fn": {"k": "prevnot", "t": ty.toks[2], "n": 1}})
                lx["k"] = rng.choice(["plain", "comb"])
            texts = f.token_texts(g, ty, 6, cap=6)
            texts += [t + rng.choice(bad + [b"x"]) for t in texts[:5]]
            texts = list(dict.fromkeys(texts))
            mk = lambda **kw: f.tok("logs, tokenized", g, ty, texts, ("dbg",), lexer=lx, ev=True, how="init", **kw)
        how = rng.choice(["init", "direct"])
        a = mk(pair=quiet)
        ids.append(mk(pair=same_as(a, ("lex", "par", "dbg", "ev")), log=log))
    # raw sections of tokens which are not characters
    for k in range(f.n(40)):
        ty = types(rng)
        ty.text.update({ty.raws[0]: b"\xc3", ty.raws[1]: b"\xff\x80", ty.toks[2]: b"\xe2\x82"})
        lx = lexer(punc(("a", ty.toks[0]), ("b", ty.toks[1])), *[pat(t, seq(*[byt([x]) for x in ty.text[t]])) for t in (ty.raws[0], ty.raws[1], ty.toks[2])])
        inner = random_grammar(rng, 0, dict(W_RAW, ns=0, list=4, concat=3, tf=4), toks=ty.toks[:3], raws=ty.raws, depth=3, odd=.7, ok=lambda g: not any(n["k"] == "cache" for n in g), minnodes=1)
        if not inner: continue
        g = [{"k": "concat", "a": [2, 3, 4, 5], "u": False}, {"k": "tf", "t": ty.toks[0], "v": 1}, {"k": "ns", "e": 6, "fill": rng.random() < .3}, {"k": "nul", "e": 2, "h": True}, {"k": "eof", "v": -1}] + shifted(inner, 5)
        if not well_formed(g, 1, 0): continue
        texts = []
        for _ in range(12):
            t = ty.spell(ty.toks[0]) + b"".join(sentence(rng, inner, 1, ty.spell, None, 5)[:6]) + rng.choice([b"", b"a"])
            texts.append(t if rng.random() < .7 else t + random_text(rng, [b"\xc3", b"\xff\x80", b"\xe2\x82", b"a", b"\x80"], 0, 2))
        mk = lambda **kw: f.tok("logs, raw sections of bytes", g, ty, list(dict.fromkeys(texts)), ("dbg",), lexer=lx, ev=True, how="init", **kw)
        a = mk(pair=quiet)
        ids.append(mk(pair=same_as(a, ("lex", "par", "dbg", "ev")), log=rng.choice([[5], [4], [3], [2], [5, 4]])))
    for k in range(f.n(30)):
        # every lexeme and terminal may match bytes which are not characters
        r = lambda: nonempty_regex(rng, BYTES, 1)
        ls = [pat(1, r()), {"k": "map", "e": pat(2, r()), "f": fields([("a", 5)])}, {"k": "tmap", "e": pat(3, r()), "fn": {"k": "len", "t": 1, "to": 6, "n": 2, "b": 97}},
              {"k": "mw", "e": pat(4, r()), "fn": {"k": "true", "t": 0, "n": 0}}, {"k": "smix", "e": pat(7, r()), "a": [[7, {"k": "none", "s": 0, "d": False}]]},
              {"k": "tmix", "e": pat(8, r()), "fn": {"k": "len", "t": 0, "n": 2, "b": 97, "then": {"k": "none", "s": 0, "d": True}, "other": {"k": "none", "s": 0, "d": False}, "a": []}}]
        rng.shuffle(ls)
        lx = combined(0, [(0, ls[:rng.randint(2, 6)] + [pat(9, byt([0xfe], True))])])
        texts = [random_text(rng, ["a", b"\xff", b"\xc3", b"\xa9", b"\xfe"], 1, 6) for _ in range(14)]
        f.lex("logs, bytes which are not characters", lx, texts, ("lex",), release=rng.random() < .2, log=rng.choice([[5], [4], [3], [2], [5, 2, 4, 3]]))
        re_ = lambda v: (lambda r: {"k": "re", "re": r, "src": source(r), "v": v})(regex(rng, BYTES, 1))
        g = [{"k": "union", "a": [2, 3], "u": False}, {"k": "concat", "a": [4, 5], "u": False}, {"k": "node", "e": 4, "v": 9}, re_(1), re_(2)]
        f.less("logs, bytes which are not characters", g, texts, ("par", "dbg"), log=rng.choice([[5], [4], [3], [2], [5, 2, 4, 3]]))
    for k in range(f.n(50)):
        lx = random_lexer(rng, "aé", deco=ALLDECO, states=(0, 1), fallback=.8)
        lx["k"] = "comb"
        texts = [random_text(rng, ["a", "é", b"\xff", b"\xc3", "b"], 0, 6) for _ in range(14)]
        mk = lambda **kw: f.lex("logs, tokenizers", lx, texts, ("lex",), **kw)
        mk(log=rng.choice([[5], [4], [3], [2], [5, 2, 0, 3, 4]]))
    # builds without debug assertions have no logging
    r = dict(release=True)
    ids += grammars(f, "release build, structural", [], f.n(50), ("par", "ev"), ntexts=6, evmax=10, **r)
    ids += grammars(f, "release build, lexerless", [], f.n(35), ("par", "ev"), weights=W_LESS, mode=2, ntexts=6, evmax=10, **r)
    ids += grammars(f, "release build, raw sections", ["ns"], f.n(35), ("par", "ev"), weights=W_RAW, ntexts=6, evmax=10, **r)
    for k in range(f.n(40)):
        lx = random_lexer(rng, "aé", deco=ALLDECO, states=(0, 1), fallback=.8)
        f.lex("release build, tokenizers", lx, [random_text(rng, ["a", "é", b"\xff", "b"], 0, 6) for _ in range(14)], ("lex", "tile"), **r)
    f.peg_machine(ids)
def c28(f):
    rng = f.rng
    ids = []
    for k in range(f.n(70)):
        mode = rng.choice([0, 1, 2])
        ty = types(rng)
        if mode == 2:
            g = random_grammar(rng, 2, W_LESS, lits=rng.sample(LITS, 3), depth=3)
            if not g: continue
            t = f.char_texts(g, 5, cap=8)
            mk = lambda **kw: f.less("definition histories, lexerless", g, t, ("dbg",), ev=True, **kw)
        else:
            g = random_grammar(rng, 0, W_RAW if mode else W_ALL, toks=ty.toks, raws=ty.raws, depth=3)
            if not g: continue
            t = f.token_texts(g, ty, 5, cap=8)
            mk = lambda **kw: f.tok("definition histories, tokenized", g, ty, t, ("dbg",), ev=True, **kw)
        a = mk(how="direct", pair=quiet)
        keys = ("lex", "par", "dbg", "ev")
        ids.append(mk(how="init", re=True, log=rng.choice([[], [2], [3, 0]]), pair=same_as(a, keys)))
        mk(how="direct", re=True, log=rng.choice([[], [5, 0, 1]]), pair=same_as(a, keys))
        mk(how="bld", re=True, pair=same_as(a, keys))
    for k in range(f.n(40)):
        lx = random_lexer(rng, "ab", deco=ALLDECO, states=(0, 1), fallback=.8)
        t = rng.sample(all_texts("ab", 4), 12)
        a = f.lex("lexeme builders", lx, t, (), how="direct", pair=quiet)
        f.lex("lexeme builders", lx, t, (), how="bld", re=True, log=[2], pair=same_as(a, ("lex",)))
    f.peg_machine(ids)
def c29(f):
    rng = f.rng
    defs = []
    bads = ["^(", "^[", "^a{2,1}", "^(?P<x", "^a)", "^[z-a]", "^\\"]
    def lexeme():
        k = rng.choice(["pat", "punc", "const", "map", "deco"])
        if k == "pat":
            if rng.random() < .25: return {"k": "pat", "t": 1, "re": lit("a"), "src": rng.choice(bads), "bad": True}
            r = regex(rng, "ab", 3)
            return dict(pat(1, r), bad=False)
        n = rng.randint(0, 5)
        ws = ["".join(rng.choice("ab") for _ in range(rng.randint(1, 3))) for _ in range(n)]
        m = rng.choice([1, 2, 9])
        fs = fields([(w, i % m + 1) for i, w in enumerate(ws)])
        if k == "punc": return {"k": "punc", "f": fs}
        if k == "const": return {"k": "const", "f": fields([(w, i) for i, w in enumerate(dict.fromkeys(ws))])}
        e = lexeme()
        if k == "map": return {"k": "map", "e": e, "f": fs, "ext": rng.randint(0, len(fs))}
        return rng.choice([{"k": "mw", "e": e, "fn": {"k": "true", "t": 0, "n": 0}}, {"k": "tmap", "e": e, "fn": {"k": "never", "t": 0, "to": 0, "n": 0, "b": 0}}, {"k": "smix", "e": e, "a": []}])
    def prod():
        k = rng.choice(["re", "pun", "cst", "csts"])
        if k == "re":
            if rng.random() < .4: return {"k": "re", "v": 1, "re": lit("a"), "src": rng.choice(bads), "bad": True}
            r = regex(rng, "ab", 3)
            return {"k": "re", "v": 1, "re": r, "src": source(r), "bad": False}
        if k == "cst": return {"k": "cst", "s": B(rng.choice(["", "a", "ab"])), "v": 1}
        ws = ["".join(rng.choice("ab") for _ in range(rng.randint(1, 3))) for _ in range(rng.randint(0, 5))]
        if k == "csts": ws = list(dict.fromkeys(ws))
        m = rng.choice([1, 2, 9])
        return {"k": k, "a": [[B(w), i % m - 1] for i, w in enumerate(ws)]}
    for k in range(f.n(40)):
        f.add("lexemes", {"mode": "ctor", "tk": "i8", "defs": [{"of": "lexeme", "def": lexeme()} for _ in range(25)]}, ("ctor",))
        f.add("productions", {"mode": "ctor", "tk": "i8", "defs": [{"of": "prod", "def": prod()} for _ in range(25)]}, ("ctor",))
    # every list of at most three short literals
    ws = ["a", "b", "ab", "ba", "aa"]
    ds = []
    for n in range(0, 4):
        for t in itertools.product(ws, repeat=n):
            for m in (1, 9):
              fs = fields([(w, i % m + 1) for i, w in enumerate(t)])
              ds.append({"of": "lexeme", "def": {"k": "punc", "f": fs}})
              ds.append({"of": "lexeme", "def": {"k": "map", "e": pat(9, lit("a")) | {"bad": False}, "f": fs}})
              ds.append({"of": "prod", "def": {"k": "pun", "a": [[B(w), i % m] for i, w in enumerate(t)]}})
    for k in range(0, len(ds), 60): f.add("every short list of literals", {"mode": "ctor", "tk": "i8", "defs": ds[k:k + 60]}, ("ctor",))
    # what is accepted works
    ids = []
    for k in range(f.n(30)):
        lx = random_lexer(rng, "ab", deco=("map",), nlex=3)
        ids.append(f.lex("accepted definitions", lx, rng.sample(all_texts("ab", 4), 12), ("lex",)))
    f.lex_machine(ids)

def c31(f):
    """Printed grammars; what is printed does not change what is parsed."""
    rng = f.rng
    for k in range(f.n(140)):
        mode = rng.choice([0, 0, 1, 2])
        ty = varied(rng)
        kw = dict(depth=rng.choice([2, 3, 4, 5]), reuse=rng.choice([.05, .2, .35]), hidden=.3, names=True)
        w = dict(W_LESS if mode == 2 else W_RAW if mode else W_ALL, eof=1, null=1)
        if mode == 2: g = random_grammar(rng, 2, w, lits=rng.sample(LITS + ['"', "\\", "/", "\t"], 4), **kw)
        else: g = random_grammar(rng, 0, w, toks=ty.toks, raws=ty.raws, **kw)
        if not g: continue
        if mode == 2: i = f.less("printed, lexerless", g, f.cheap(g, None, f.char_texts(g, 3, cap=3), 2), ("par", "gram", "show"), gram=True, show=True, ev=False)
        else:
            lx = random_lexer(rng, rng.choice(["ab", "a/", 'a"', "aé"]), deco=ALLDECO, states=rng.choice([(0,), (0, 1), (2, 1, 0), (5, 3, 9)])) if rng.random() < .7 else ty.lexer()
            i = f.tok("printed, tokenized", g, ty, f.cheap(g, ty, f.token_texts(g, ty, 3, cap=3), 0), ("par", "gram", "show") if lx == ty.lexer() else ("gram",), lexer=lx, gram=True, show=True, ev=False)
        f.groups[i].update(grammar=printable(f.groups[i]["grammar"]), fm=None)
        if mode != 2: f.groups[i]["lexer"] = printable(f.groups[i]["lexer"])
        ck, cn = ["CK(", ")"] if f.groups[i]["tk"] == "ck" else ["", ""], ["CN(", ")"] if f.groups[i]["tk"] in ("ck", "lx") else ["", ""]
        f.groups[i]["fm"] = cn + ck + ["g%d_" % i, bool(f.groups[i].get("rev")) and f.groups[i]["tk"] == "ck"]

def c32(f):
    """What productions say of themselves: whether they may match nothing, what they may begin with."""
    rng = f.rng
    obs = ("par", "facts")
    ids = []
    few = lambda t: rng.sample(t, min(len(t), 4))
    for k in range(f.n(160)):
        mode = rng.choice([0, 0, 1, 2])
        ty = types(rng)
        kw = dict(depth=rng.choice([2, 3, 4, 5]), reuse=rng.choice([.05, .2, .35]))
        w = dict(W_LESS if mode == 2 else W_RAW if mode else W_ALL)
        if rng.random() < .6: w.update(eof=2, null=2, nul=5, look=2, sl=3, suf=4)
        if mode == 2: g = random_grammar(rng, 2, w, lits=rng.sample(LITS, 3), **kw)
        else: g = random_grammar(rng, 0, w, toks=ty.toks, raws=ty.raws, **kw)
        if not g: continue
        if mode == 2: ids.append(f.less("any grammar, lexerless", g, few(f.cheap(g, None, f.char_texts(g, 3, cap=3), 2)), obs))
        else: ids.append(f.tok("any grammar, tokenized", g, ty, few(f.cheap(g, ty, f.token_texts(g, ty, 3, cap=3), 0)), obs))
    new = nested(f, ["concat", "union", "suf", "sl", "list", "nul", "hid", "node", "look", "val", "cache"], 90)
    for i in new:
        g = f.groups[i]
        g["facts"] = rng.sample(range(1, len(g["grammar"]) + 1), len(g["grammar"]))
        g.update(sweep=False, ev=False, inputs=g["inputs"][:2])
        f.meta[i]["obs"] = set(obs)
    f.peg_machine(ids)

# ------------------------------------------------------------------- JSON
def json_value(rng, d):
    ws = lambda: rng.choice(["", "", "", " ", "\n", "\t ", "\r\n"] + (["\u00a0", "\u2028"] if rng.random() < .05 else []))
    def st():
        return '"' + "".join(rng.choice(["a", "é", "\\n", "\\\"", "\\\\", "\\u00e9", "/", "'", "{", "]", ",", ":", " ", "1", "\\/", "\t", "\\x"]) for _ in range(rng.randint(0, 4))) + '"'
    def num():
        return rng.choice(["0", "1", "12", "10", "007"]) + rng.choice(["", "", ".5", ".05"]) + rng.choice(["", "", "e1", "E+2", "e-10"])
    k = rng.choice(["s", "n", "c", "n"] if d <= 0 else ["s", "n", "c", "o", "a", "o", "a"])
    if k == "s": return st()
    if k == "n": return num()
    if k == "c": return rng.choice(["true", "false", "null"])
    n = rng.choice([0, 1, 1, 2, 3])
    tail = ws() + ("," + ws() if n and rng.random() < .15 else "")
    if k == "a": return "[" + ws() + (ws() + "," + ws()).join(json_value(rng, d - 1) for _ in range(n)) + tail + "]"
    return "{" + ws() + (ws() + "," + ws()).join(st() + ws() + ":" + ws() + json_value(rng, d - 1) for _ in range(n)) + tail + "}"
def c30(f):
    rng = f.rng
    texts = [b""]
    for k in range(f.n(500)):
        t = rng.choice(["", "", " ", "\n"]) + json_value(rng, rng.choice([0, 1, 2, 3])) + rng.choice(["", "", " ", "\n"])
        b = t.encode()
        texts.append(b)
        for _ in range(2):
            m = bytearray(b)
            for _ in range(rng.choice([1, 1, 2])):
                i = rng.randrange(len(m) + 1)
                if rng.random() < .4 and i < len(m): del m[i]
                elif rng.random() < .5: m[i:i] = rng.choice([b",", b"}", b"]", b"{", b"[", b":", b'"', b"-", b"1", b".", b"e", b"t", b" ", b"\\", b"\n", b"\xff", b"true", b"nullx"])
                elif i < len(m): m[i:i + 1] = m[i:i + 1] * 2
            texts.append(bytes(m))
    pieces = ["{", "}", "[", "]", ",", ":", '"a"', "1", "true", " "]
    texts += all_texts(pieces, 2)
    t = all_texts(pieces, 4 if f.quick else 5)
    texts += rng.sample(t, f.n(900, 20000))
    texts += [b"[" * n + b"]" * n for n in (2, 6, 12)] + ["[%s]" % ",".join("1" * (i + 1) for i in range(6))][0:0]
    texts += [x.encode() for x in ["-1", "1.", ".5", "1e", "1e+", "01", "'a'", '"a', '"\\"', '"\n"', '"\\\n"', '"\\ \n a"', "tru", "nulll", "true false", "[,]", "{,}", "[1,,]", "[1,]", '{"a":1,}', '{"a"}', '{"a":}', "{1:2}", '["\\u12"]', "\ufeff1", "/**/1", "1 2", '"a" "b"', "[1 2]", '{"a":1 "b":2}']]
    # parts of hundreds and thousands of bytes
    long = []
    for n in ([300, 1100, 2100, 4200] if f.quick else [125, 250, 300, 520, 1021, 1100, 2045, 2100, 4093, 4200]):
        for x in ["a", "é", "\\n", "\\\"", " ", "€a"]:
            t = '"' + x * (n // len(x)) + '"'
            long += [t, rng.choice(['[%s]', '{%s:1}', '{"k":%s}', '[1,%s,2]', ' %s ', '%s %s', '[%s'])  .replace("%s", t)]
        for x in ["1", "0", "12"]:
            long += [x * n, rng.choice(["[%s]", "[%s.%s]", "%se5", "[%s.]", "1e%s", "0.%s", "%s "]).replace("%s", x * (n // 2))]
        for x in [" ", "\n", "\t ", "\u2028"]:
            long.append(rng.choice(["%s1", "[%s1]", "[1%s,2]", '{"a"%s:1}', "1%s", '{%s}', "%s"]).replace("%s", x * (n // len(x))))
        if n < 1500: long += ["[" + ",".join(["1"] * n) + rng.choice(["]", ",]", "", ",,]"]), "{" + ",".join('"%d":[]' % j for j in range(n // 4)) + rng.choice(["}", ",}", "]"])]
    long = [x.encode() for x in long]
    for k in range(0, len(long), 8): f.add("long JSON texts", {"mode": "json", "inputs": long[k:k + 8]}, ("json",))
    texts = list(dict.fromkeys(texts))
    for k in range(0, len(texts), 100): f.add("JSON texts", {"mode": "json", "inputs": texts[k:k + 100]}, ("json",))

CHECKS = {"C%02d" % n: globals()["c%02d" % n] for n in range(1, 33)}

KNOWN = [json.loads(l[7:]) for l in open(os.path.join(core.VERIF, "known-findings.txt")) if l.startswith("known: ")]
def known(run, binary):
    """Findings of this property which still fail, each in a process of its own."""
    out = []
    for k in KNOWN:
        if k.get("property") != run.prop or "group" not in k: continue
        o = core.run_harness(binary, [k["group"]], run.work, jobs=1, hang=10)[0]
        if "crash" in o: out.append(k["what"])
    return out
def make(prop, tier, rng):
    f = Fam(prop, tier, rng)
    CHECKS[prop](f)
    return f
