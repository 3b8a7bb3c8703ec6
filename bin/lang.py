"""Random and enumerated definitions: expressions, lexemes, tokenizers, grammars, texts."""
import itertools
import re as _re

# ------------------------------------------------------------ expressions
def lit(s):
    return {"k": "lit", "s": list(s.encode() if isinstance(s, str) else s)}
def cls(chars, neg=False):
    return {"k": "cls", "neg": neg, "set": [ord(c) for c in chars]}
def byt(bs, neg=False):
    """One byte, a part of a character or not."""
    return {"k": "byt", "neg": neg, "set": list(bs)}
BYTES = [97, 0xff, 0xc3, 0xa9]
def seq(*a): return {"k": "seq", "a": list(a)}
def alt(*a): return {"k": "alt", "a": list(a)}
def rep(e, lo, hi=-1, greedy=True): return {"k": "rep", "e": e, "lo": lo, "hi": hi, "greedy": greedy}

def esc(c):
    if c == "\n": return "\\n"
    if c == "\r": return "\\r"
    if c == "\t": return "\\t"
    return "\\" + c if c in "\\.+*?()|[]{}^$-#&~/ '\"" and c not in " '\"/" else c
def src(r):
    k = r["k"]
    if k == "lit":
        return "".join(esc(c) for c in bytes(r["s"]).decode())
    if k == "cls":
        return "[" + ("^" if r["neg"] else "") + "".join(esc(chr(c)) for c in r["set"]) + "]"
    if k == "byt":
        return "(?-u:[" + ("^" if r["neg"] else "") + "".join("\\x%02x" % c for c in r["set"]) + "])"
    if k == "seq":
        return "".join("(?:%s)" % src(x) if x["k"] == "alt" else src(x) for x in r["a"])
    if k == "alt":
        return "|".join(src(x) for x in r["a"])
    e = r["e"]
    body = src(e)
    if not (e["k"] in ("cls", "byt") or (e["k"] == "lit" and len(bytes(e["s"]).decode()) == 1)):
        body = "(?:%s)" % body
    lo, hi = r["lo"], r["hi"]
    q = {(0, -1): "*", (1, -1): "+", (0, 1): "?"}.get((lo, hi))
    if q is None:
        q = "{%d}" % lo if lo == hi else ("{%d,}" % lo if hi == -1 else "{%d,%d}" % (lo, hi))
    return body + q + ("" if r["greedy"] else "?")
def source(r): return "^(?:%s)" % src(r)
def renull(r):
    k = r["k"]
    if k == "lit": return not r["s"]
    if k in ("cls", "byt"): return False
    if k == "seq": return all(renull(x) for x in r["a"])
    if k == "alt": return any(renull(x) for x in r["a"])
    return r["lo"] == 0 or renull(r["e"])
def regex(rng, chars="ab", depth=2):
    k = rng.choice(["lit", "lit", "cls"] if depth == 0 else ["lit", "cls", "seq", "seq", "alt", "rep", "rep"])
    if not isinstance(chars, str) and k in ("lit", "cls"):
        return byt(sorted(set(rng.choice(chars) for _ in range(rng.choice([1, 2])))), rng.random() < .25)
    if k == "lit":
        return lit("".join(rng.choice(chars) for _ in range(rng.choice([1, 1, 2]))))
    if k == "cls":
        return cls(sorted(set(rng.choice(chars) for _ in range(rng.choice([1, 2])))), rng.random() < .25)
    if k == "seq":
        return seq(*[regex(rng, chars, depth - 1) for _ in range(rng.choice([2, 2, 3]))])
    if k == "alt":
        return alt(*[regex(rng, chars, depth - 1) for _ in range(rng.choice([2, 2, 3]))])
    for _ in range(20):
        e = regex(rng, chars, depth - 1)
        if not renull(e):
            lo, hi = rng.choice([(0, -1), (1, -1), (0, 1), (2, -1), (1, 2), (0, 2), (2, 2)])
            return rep(e, lo, hi, rng.random() < .75)
    return lit(chars[0]) if isinstance(chars, str) else byt(chars[:1])
def nonempty_regex(rng, chars="ab", depth=2):
    while True:
        r = regex(rng, chars, depth)
        if not renull(r): return r

# ---------------------------------------------------------------- lexemes
def pat(t, r): return {"k": "pat", "t": t, "re": r, "src": source(r)}
def B(x): return list(x.encode() if isinstance(x, str) else x)
def fields(pairs): return [[B(a), t] for a, t in pairs]
def punc(*pairs): return {"k": "punc", "f": fields(pairs)}
def const(*pairs): return {"k": "const", "f": fields(pairs)}
def lexer(*lexemes): return {"k": "plain", "dflt": 0, "states": [[0, list(lexemes)]]}
def combined(dflt, states): return {"k": "comb", "dflt": dflt, "states": [[s, l] for s, l in states]}

def literals(rng, chars, n, maxlen=3, most=5):
    out = []
    for _ in range(40):
        if len(out) >= n: break
        if out and rng.random() < .5:      # extend or cut an earlier one
            b = rng.choice(out)
            w = b + rng.choice(chars) if rng.random() < .6 else b[:-1]
        else:
            w = "".join(rng.choice(chars) for _ in range(rng.randint(1, maxlen)))
        if w and w not in out and len(w.encode()) <= most: out.append(w)
    rng.shuffle(out)
    return out
def base_lexeme(rng, chars, tok):
    k = rng.choice(["pat", "punc", "const", "punc"])
    if k == "pat": return pat(tok(), nonempty_regex(rng, chars))
    return (punc if k == "punc" else const)(*[(w, tok()) for w in literals(rng, chars, rng.randint(1, 4))])
def tokens_of(l):
    k = l["k"]
    if k == "pat": return [l["t"]]
    if k in ("punc", "const"): return [x[1] for x in l["f"]]
    ts = list(tokens_of(l["e"]))
    if k == "map": ts += [x[1] for x in l["f"]]
    if k == "tmap": ts.append(l["fn"].get("to", ts[0]))
    return ts
def action(rng, states, discard=.3, kinds=("none", "append", "switch", "pop")):
    return {"k": rng.choice(kinds), "s": rng.choice(states), "d": rng.random() < discard}
SEEN = ["true", "never", "prev", "prev", "prevnot", "first", "any", "prevlen", "count", "few", "codelen", "head", "tail"]
SEENMATCH = ["len", "len", "byte", "byte", "is", "next", "next", "rest", "before", "start", "gap"]
def decorate(rng, l, chars, tok, states, kinds):
    k = rng.choice(kinds)
    ts = sorted(set(tokens_of(l)))
    end = lambda fn: dict(fn, b=-1) if fn["k"] == "next" and rng.random() < .3 else fn
    t = lambda: rng.choice(ts + [tok()])
    if k == "map":
        x = {"k": "map", "e": l, "f": fields([(w, t() if rng.random() < .2 else tok()) for w in literals(rng, chars, rng.randint(1, 4))])}
        if rng.random() < .3: x["ext"] = rng.randint(0, len(x["f"]))  # so many are added later
        return x
    if k == "tmap":
        fn = {"k": rng.choice(SEEN + SEENMATCH)}
        fn.update(t=t(), to=tok(), n=rng.randint(1, 3), b=rng.choice(chars).encode()[0])
        return {"k": "tmap", "e": l, "fn": end(fn)}
    if k == "mw":
        fn = {"k": rng.choice(SEEN + ["prevnot", "few"]), "t": t(), "n": rng.randint(1, 4), "b": rng.choice(chars).encode()[0]}
        return {"k": "mw", "e": l, "fn": fn}
    if k == "smix":
        a = []
        for x in ts:
            if rng.random() < .7: a.append([x, action(rng, states)])
        return {"k": "smix", "e": l, "a": a}
    fn = {"k": rng.choice(["tok"] * 5 + SEEN + SEENMATCH), "t": t(), "n": rng.randint(1, 3),
          "b": rng.choice(chars).encode()[0], "then": action(rng, states), "other": action(rng, states, .15),
          "a": [[x, action(rng, states)] for x in ts if rng.random() < .6]}
    return {"k": "tmix", "e": l, "fn": end(fn)}
def counter(start=1, step=1):
    it = itertools.count(start, step)
    return lambda: next(it)
def random_lexer(rng, chars="ab", deco=("map", "tmap", "mw"), states=(0,), nlex=3, maxdeco=2, fallback=None, pool=None):
    tok = (lambda: rng.choice(pool)) if pool else lambda c=itertools.count(1): (next(c) % 60) + 1
    sets = []
    for st in states:
        ls = []
        for _ in range(rng.randint(1, nlex)):
            l = base_lexeme(rng, chars, tok)
            for _ in range(rng.randint(0, maxdeco) if deco else 0):
                l = decorate(rng, l, chars, tok, list(states), deco)
            ls.append(l)
        if fallback is not None and rng.random() < fallback:
            ls.append(pat(tok(), cls(chars)))
        sets.append([st, ls])
    if len(states) == 1 and rng.random() < .5 and not has_actions(sets[0][1]):
        return {"k": "plain", "dflt": states[0], "states": sets}
    return {"k": "comb", "dflt": states[0], "states": sets}
def has_actions(ls):
    def h(l): return l["k"] in ("smix", "tmix") or ("e" in l and h(l["e"]))
    return any(h(l) for l in ls)

# ------------------------------------------------------------------ texts
def all_texts(chars, maxlen, cap=None):
    """Every sequence of the given pieces up to a length; a cap cuts the longest."""
    out = []
    for n in range(maxlen + 1):
        for w in itertools.product(chars, repeat=n):
            out.append(b"".join(x.encode() if isinstance(x, str) else bytes(x) for x in w))
            if cap and len(out) >= cap: return out
    return out
def random_text(rng, pieces, lo, hi):
    return b"".join((lambda x: x.encode() if isinstance(x, str) else bytes(x))(rng.choice(pieces))
                    for _ in range(rng.randint(lo, hi)))
def mutate(rng, parts, pieces):
    parts = list(parts)
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.choice(["del", "ins", "sub", "dup", "cut"])
        if not parts: k = "ins"
        i = rng.randrange(len(parts) + 1) if k == "ins" else rng.randrange(len(parts)) if parts else 0
        if k == "del": del parts[i]
        elif k == "ins": parts.insert(i, rng.choice(pieces))
        elif k == "sub": parts[i] = rng.choice(pieces)
        elif k == "dup": parts.insert(i, parts[i])
        else: parts = parts[:i]
    return parts

# --------------------------------------------------------------- grammars
TERM = {"tf", "tfs", "eof", "null", "cst", "csts", "pun", "re"}
def kids(nd):
    k = nd["k"]
    if k in TERM: return []
    if k in ("concat", "union"): return [] if nd["u"] else list(nd["a"])
    if k == "suf": return [nd["l"]] + ([] if nd["u"] else [x[0] for x in nd["a"]])
    if k == "sl": return [nd["e"], nd["s"]]
    return [nd["e"]]
def nullset(g):
    N = set()
    def now(n, nd):
        k = nd["k"]
        if k in ("tf", "tfs", "cst"): return False
        if k in ("null", "nul", "eof", "look", "ns"): return True
        if k in ("csts", "pun"): return any(x[0] == [] for x in nd["a"])
        if k == "re": return renull(nd["re"])
        if k == "concat": return not nd["u"] and all(x in N for x in nd["a"])
        if k == "union": return not nd["u"] and any(x in N for x in nd["a"])
        if k == "suf": return not nd["u"] and nd["l"] in N and (nd["st"] or any(x[0] in N for x in nd["a"]))
        return nd["e"] in N
    while True:
        M = {n + 1 for n, nd in enumerate(g) if (n + 1) in N or now(n + 1, nd)}
        if M == N: return N
        N = M
def leftmost(g, N, n):
    nd = g[n - 1]; k = nd["k"]
    if k == "concat":
        out = []
        if nd["u"]: return out
        for x in nd["a"]:
            out.append(x)
            if x not in N: break
        return out
    if k == "suf":
        return [nd["l"]] + ([x[0] for x in nd["a"]] if not nd["u"] and nd["l"] in N else [])
    if k == "sl": return [nd["e"]] + ([nd["s"]] if nd["e"] in N else [])
    return kids(nd)
def closure(S, succ):
    seen = set(); todo = list(S)
    while todo:
        x = todo.pop()
        if x in seen: continue
        seen.add(x); todo += succ(x)
    return seen
def reachable(g, root): return closure([root], lambda n: kids(g[n - 1]))
def leftrec(g, N, n):
    return n in closure(leftmost(g, N, n), lambda x: leftmost(g, N, x))
def accepted(g, root):
    R = reachable(g, root); N = nullset(g)
    return (not any(g[n - 1]["k"] in ("concat", "union", "suf") and g[n - 1]["u"] for n in R)
            and not any(leftrec(g, N, n) for n in R))
def terminating(g, root):
    """No raw section contains itself through a structural section inside of it."""
    N = nullset(g)
    def steps(p):
        n, m = p; nd = g[n - 1]
        im = 1 if nd["k"] == "ns" else 0 if nd["k"] == "st" else m
        return [(x, im) for x in (kids(nd) if m == 1 else leftmost(g, N, n))]
    R = closure([(n, 0) for n in reachable(g, root)], steps)
    return not any(p[1] == 0 and p in closure(steps(p), steps) for p in R)
def modes(g, root):
    """Productions tried in the structural (0) and raw (1) modes, from the root in mode 0."""
    seen = set(); todo = [(root, 0)]
    while todo:
        n, m = todo.pop()
        if (n, m) in seen: continue
        seen.add((n, m))
        nd = g[n - 1]
        im = 1 if nd["k"] == "ns" else 0 if nd["k"] == "st" else m
        todo += [(x, im) for x in kids(nd)]
    return seen

class GrammarGen:
    """toks: values of structural tokens, raws: values of others (token modes);
       lits: literals (mode 2)."""
    def __init__(self, rng, mode, weights, toks=(1, 2, 3), raws=(-1, -2), lits=("a", "b", "c"), depth=4,
                 reuse=.2, hidden=.2, back=.5, valfns=("ok", "min", "has", "byte", "unmin", "unhas"), maxnodes=16, wide=0., odd=.04, names=False):
        self.__dict__.update(locals())
    def build(self, root_kind=None):
        self.g = []; self.node = 10; self.raw = {}
        self.keys = 0
        self.mk(self.depth, 0, root_kind)
        return self.g
    def val(self):
        if self.rng.random() < self.hidden: return -1
        self.node = self.node % 110 + 1
        return self.node
    def pick(self, d, raw):
        w = dict(self.weights)
        if d <= 0 or len(self.g) > self.maxnodes:
            return self.rng.choice(["tf", "tf", "tf", "tfs", "null", "eof"] if self.mode != 2 else ["cst", "cst", "cst", "csts", "pun", "re", "eof", "null"]) \
                if self.rng.random() < .5 else ("tf" if self.mode != 2 else "cst")
        if raw: w.pop("cache", None)
        ks = list(w)
        return self.rng.choices(ks, [w[k] for k in ks])[0]
    def token(self, raw):
        r = self.rng
        # a structural symbol may name an insignificant token, which it never sees
        if self.raws and r.random() < (.7 if raw else self.odd): return r.choice(self.raws)
        return r.choice(self.toks)
    def mk(self, d, raw, kind=None):
        r, g = self.rng, self.g
        if kind is None and g and d < self.depth and r.random() < self.reuse:
            same = [n + 1 for n in range(len(g)) if self.raw[n + 1] == raw]
            if same: return r.choice(same)
        k = kind or self.pick(d, raw)
        if self.mode == 2 and k in ("tf", "tfs"): k = {"tf": "cst", "tfs": "csts"}[k]
        if self.mode != 2 and k in ("cst", "csts", "pun", "re"): k = "tf"
        g.append(None); n = len(g); self.raw[n] = raw
        wide = self.wide and k in ("concat", "union", "suf") and r.random() < self.wide
        def sub(rw=raw):
            if wide:
                # small symbols, most of them shared
                same = [x + 1 for x in range(len(g)) if g[x] and self.raw[x + 1] == rw]
                return r.choice(same) if same and r.random() < .7 else self.mk(min(d - 1, r.choice([0, 0, 1])), rw)
            return self.mk(d - 1, rw)
        many = lambda few: r.choice(few) if not wide else r.choice([5, 7, 8, 9, 10, 12, 15, 16, 17, 18])
        if k == "tf": nd = {"t": self.token(raw), "v": self.val()}
        elif k == "tfs":
            ts = list(dict.fromkeys(self.token(raw) for _ in range(3)))
            if r.random() < .3:
                v = self.val(); nd = {"a": [[t, v] for t in ts], "same": True}
            else: nd = {"a": [[t, self.val()] for t in ts]}
        elif k in ("eof",): nd = {"v": self.val()}
        elif k == "null": nd = {"v": r.choice([-1, 0])}
        elif k == "cst": nd = {"s": B(r.choice(self.lits)), "v": self.val()}
        elif k in ("csts", "pun"):
            ls = list(dict.fromkeys(r.choice(self.lits) for _ in range(3)))
            # printed longest first: members of different lengths
            if self.names: ls = list({len(x.encode()): x for x in ls}.values())
            nd = {"a": [[B(x), self.val()] for x in ls]}
        elif k == "re":
            ch = sorted(set("".join(self.lits)))
            re_ = regex(r, "".join(ch), 1) if r.random() < .4 else nonempty_regex(r, "".join(ch), 1)
            nd = {"re": re_, "src": source(re_), "v": self.val()}
        elif k == "concat": nd = {"a": [sub() for _ in range(many([2, 2, 3, 3, 4]))], "u": False}
        elif k == "union": nd = {"a": [sub() for _ in range(many([2, 3, 3, 4]))], "u": False}
        elif k == "suf":
            nd = {"l": sub(), "st": r.random() < .6, "u": False}
            nd["a"] = [[sub(), r.randint(1, 110)] for _ in range(many([1, 2, 2, 3]))]
        elif k == "sl": nd = {"e": sub(), "s": sub(), "inc": r.random() < .5, "rule": r.random() < .3}
        elif k == "nul": nd = {"e": sub(), "h": r.random() < .5}
        elif k == "hid": nd = {"e": sub(), "rule": r.random() < .3}
        elif k == "look": nd = {"e": sub(), "v": self.val()}
        elif k == "node": nd = {"e": sub(), "v": r.randint(1, 110), "rule": r.random() < .3}
        elif k == "cache":
            self.keys += 1
            nd = {"key": self.keys, "e": sub()}
        elif k == "ns": nd = {"e": sub(1), "fill": r.random() < .4}
        elif k == "st": nd = {"e": sub(0)}
        elif k == "val":
            fn = {"k": r.choice(self.valfns), "n": r.randint(1, 3), "v": r.choice([self.node, r.randint(11, 30), 0]),
                  "b": r.choice([97, 98, 99]), "s": "V:%d" % n}
            nd = {"e": sub(), "fn": fn}
        else: nd = {"e": sub()}
        nd["k"] = k
        g[n - 1] = nd
        return n

def buildable(g):
    """Only the symbols of concat, union and suf (its suffixes) are assigned after construction."""
    early = lambda nd: [] if nd["k"] in ("concat", "union") else [nd["l"]] if nd["k"] == "suf" else kids(nd)
    return not any(n + 1 in closure(early(nd), lambda x: early(g[x - 1])) for n, nd in enumerate(g))
def well_formed(g, root, mode):
    if not buildable(g): return False
    if not accepted(g, root) or not terminating(g, root): return False
    for n, m in modes(g, root):
        if mode != 2 and m == 1 and g[n - 1]["k"] == "cache": return False
    return True
def prune(g, root):
    """Only the productions reachable from the root, which becomes the first."""
    order = []; todo = [root]
    while todo:
        n = todo.pop(0)
        if n in order: continue
        order.append(n); todo += kids(g[n - 1])
    new = {n: k + 1 for k, n in enumerate(order)}
    out = []
    for n in order:
        nd = dict(g[n - 1])
        if "e" in nd: nd["e"] = new[nd["e"]]
        if "l" in nd: nd["l"] = new[nd["l"]]
        if nd["k"] == "sl": nd["s"] = new[nd["s"]]
        if nd["k"] in ("concat", "union"): nd["a"] = [new[x] for x in nd["a"]]
        if nd["k"] == "suf": nd["a"] = [[new[x], v] for x, v in nd["a"]]
        out.append(nd)
    return out
def random_grammar(rng, mode, weights, need=(), root_kind=None, tries=400, ok=None, minnodes=3, limit=26, **kw):
    for _ in range(tries):
        g = GrammarGen(rng, mode, weights, **kw).build(root_kind)
        kinds = {nd["k"] for nd in g}
        if not set(need) <= kinds or len(g) < minnodes or len(g) > limit: continue
        if not well_formed(g, 1, mode): continue
        if ok and not ok(g): continue
        return g
    return None

def sentence(rng, g, root, spell, rawspell, depth=7):
    """A text some derivation of the grammar spells, as a list of pieces (best effort)."""
    def go(n, d, raw):
        nd = g[n - 1]; k = nd["k"]
        if k in ("eof", "null", "look"): return []
        if k == "tf": return [spell(nd["t"])]
        if k == "tfs": return [spell(rng.choice(nd["a"])[0])]
        if k == "cst": return [bytes(nd["s"])]
        if k in ("csts", "pun"): return [bytes(rng.choice(nd["a"])[0])]
        if k == "re": return [re_text(rng, nd["re"])]
        if d <= 0:
            # the shortest-looking way out
            if k == "nul": return []
            if k == "union": return go(min(nd["a"], key=lambda x: len(kids(g[x - 1]))), d - 1, raw) if d > -6 else []
            if d < -6: return []
        if k == "concat": return sum((go(x, d - 1, raw) for x in nd["a"]), [])
        if k == "union": return go(rng.choice(nd["a"]), d - 1, raw)
        if k == "suf":
            out = go(nd["l"], d - 1, raw)
            if not nd["st"] or rng.random() < .7: out = out + go(rng.choice(nd["a"])[0], d - 1, raw)
            return out
        if k == "list": return sum((go(nd["e"], d - 1, raw) for _ in range(rng.choice([1, 2, 2, 3]))), [])
        if k == "sl":
            out = go(nd["e"], d - 1, raw)
            for _ in range(rng.choice([0, 1, 2])): out = out + go(nd["s"], d - 1, raw) + go(nd["e"], d - 1, raw)
            if rng.random() < .3: out = out + go(nd["s"], d - 1, raw)
            return out
        if k == "nul": return go(nd["e"], d - 1, raw) if rng.random() < .6 else []
        return go(nd["e"], d - 1, raw)
    return go(root, depth, 0)
def re_text(rng, r):
    k = r["k"]
    if k == "lit": return bytes(r["s"])
    if k == "byt": return bytes([rng.choice(r["set"] if not r["neg"] else [x for x in (97, 98, 200) if x not in r["set"]])])
    if k == "cls":
        return chr(rng.choice(r["set"])).encode() if not r["neg"] else rng.choice([c for c in "abcdx" if ord(c) not in r["set"]]).encode()
    if k == "seq": return b"".join(re_text(rng, x) for x in r["a"])
    if k == "alt": return re_text(rng, rng.choice(r["a"]))
    hi = r["hi"] if r["hi"] >= 0 else r["lo"] + 2
    return b"".join(re_text(rng, r["e"]) for _ in range(rng.randint(r["lo"], hi)))

# ---------------------------------------------------------------- printing
def words(t): return " ".join(t.split())
def quoted(b):
    """How Rust shows a text of a definition."""
    t = "".join({"\n": "\\n", "\r": "\\r", "\t": "\\t", '"': '\\"', "\\": "\\\\", "\0": "\\0"}.get(c, c) for c in bytes(b).decode())
    return '"' + t + '"'
def printable(x):
    """A definition with the texts it is printed with."""
    if isinstance(x, list): return [printable(y) for y in x]
    if not isinstance(x, dict): return x
    x = {k: printable(v) for k, v in x.items()}
    k = x.get("k")
    if k == "cst": x["txt"] = words(quoted(x["s"]))
    if k in ("csts", "pun"): x["txts"] = [words(quoted(y[0])) for y in x["a"]]
    if k in ("re", "pat"): x["txt"] = words("/" + x["src"].replace("/", "\\/") + "/")
    if k in ("punc", "const", "map"): x["txts"] = [words(quoted(y[0])) for y in x["f"]]
    return x
def split_states(t):
    """The fragments a tokenizer prints: [[state, [[token, text]...]]...]"""
    out = []
    for l in t.split("\n"):
        if l.startswith("fragment"): out.append([l[8:].replace("{", " ").strip(), []])
        elif l.strip() in ("", "}"): pass
        else:
            m = _re.match(r"\s*(\S+) : (.*?)\s*,\s*$", l)
            out[-1][1].append([m[1], words(m[2])] if m else ["?", words(l)])
    return out

# ------------------------------------------------------------------- cost
def reps(r):
    """How deep repetitions are nested."""
    return (r["k"] == "rep") + max([reps(x) for x in ([r["e"]] if "e" in r else r.get("a", []))], default=0)
class Costly(Exception): pass
def calls(g, root, mode, toks, code, raws=(), budget=4000):
    """About how many calls a parse makes; more than the budget: the budget. Only
       used to choose inputs, never to judge one. toks: all tokens, in order."""
    flt = [i for i, t in enumerate(toks) if t not in raws]
    res = {}
    for n, nd in enumerate(g):
        if nd["k"] == "re":
            try: res[n + 1] = _re.compile(nd["src"].replace("(?-u:", "(?:").encode())
            except _re.error: res[n + 1] = None
    left = [budget]
    def D(n, m, i):
        left[0] -= 1
        if left[0] < 0: raise Costly()
        nd = g[n - 1]; k = nd["k"]
        if k == "null" or k == "look" and D(nd["e"], m, i) is not None: return i
        if k in ("tf", "tfs"):
            a = flt[i] if m == 0 and i < len(flt) else i
            if (m == 0 and i >= len(flt)) or a >= len(toks): return None
            return i + 1 if toks[a] in ([nd["t"]] if k == "tf" else [x[0] for x in nd["a"]]) else None
        if k == "eof": return i if i >= (len(flt) if m == 0 else len(toks) if m == 1 else len(code)) else None
        if k == "cst": return i + len(nd["s"]) if code.startswith(bytes(nd["s"]), i) else None
        if k in ("csts", "pun"):
            e = [len(x[0]) for x in nd["a"] if code.startswith(bytes(x[0]), i)]
            return i + max(e) if e else None
        if k == "re":
            x = res[n] and res[n].match(code[i:i + (16 if reps(nd["re"]) > 1 else len(code))])
            return i + x.end() if x else None
        if k == "concat":
            for x in nd["a"]:
                i = D(x, m, i)
                if i is None: return None
            return i
        if k == "union":
            for x in nd["a"]:
                j = D(x, m, i)
                if j is not None: return j
            return None
        if k == "suf":
            l = D(nd["l"], m, i)
            if l is None: return None
            for x, _ in nd["a"]:
                j = D(x, m, l)
                if j is not None: return j
            return l if nd["st"] else None
        if k == "list":
            j = D(nd["e"], m, i)
            if j is None: return None
            while True:
                x = D(nd["e"], m, j)
                if x is None or x == j: return j
                j = x
        if k == "sl":
            j = D(nd["e"], m, i)
            while j is not None:
                s = D(nd["s"], m, j)
                if s is None: break
                x = D(nd["e"], m, s)
                if x is None: return s if nd["inc"] else j
                if x == j: return x
                j = x
            return j
        if k == "nul":
            j = D(nd["e"], m, i)
            return i if j is None else j
        if k == "ns" and m == 0:
            return i if D(nd["e"], 1, flt[i - 1] + 1 if i else 0) is not None else None
        if k == "st" and m == 1:
            j = D(nd["e"], 0, sum(1 for x in flt if x < i))
            return None if j is None else flt[j - 1] + 1 if j else i
        if k == "look": return None
        return D(nd["e"], m, i)
    try: D(root, mode, 0)
    except (Costly, RecursionError): return budget
    return budget - left[0]
