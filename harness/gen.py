"""Generation of histories (cases) for exec_bm25 / RetrieverTrace."""
import random

METHODS = ["robertson", "lucene", "atire", "bm25l", "bm25+"]
WEIRD = ["naïve", "ß", "İ", "日本", "\u2028", "a b", "x\ny", '"q"', "\\", "\t", "0", "-1", "None", "é", "e\u0301",
         "\U0001f600", "\x00z", "'", "{}", "nul\x00l", "\x85", "ﬁ", "A", "a", " a", "a ", " ", "w1 ", "W1", "\n"]


class G:
    def __init__(self, seed):
        self.rng = random.Random(seed)

    def toks(self, n, weird=True):
        """Token strings; index 0 is the empty token."""
        r = self.rng
        pool = ["w%d" % i for i in range(n)]
        if weird:
            w = r.sample(WEIRD, min(len(WEIRD), max(1, n // 4)))
            for i, s in zip(r.sample(range(n), min(n, len(w))), w):
                pool[i] = s
        r.shuffle(pool)
        return [""] + pool

    def docs(self, n, toks, style=None, maxlen=8):
        r = self.rng
        style = style or r.choice(["zipf", "uniform", "common", "dup", "sparse", "empties", "long"])
        T = list(range(1, toks + 1))
        w = [1.0 / (i + 1) for i in range(toks)]
        out = []
        for i in range(n):
            L = r.randint(0 if style in ("empties", "sparse") else 1, maxlen)
            if style == "empties" and r.random() < 0.4:
                L = 0
            if style == "long" and r.random() < 0.3:
                L = r.randint(20, 60)
            d = r.choices(T, weights=w if style in ("zipf", "long", "dup") else None, k=L)
            if style == "common":
                d = d + [1] * r.randint(1, 3)
                r.shuffle(d)
            if style == "dup" and out and r.random() < 0.6:
                d = list(r.choice(out))
            out.append(d)
        return out

    def params(self, method=None, idf=None, dtype=None):
        r = self.rng
        m = method or r.choice(METHODS)
        while True:
            p = dict(k1=r.choice([0, 0.3, 0.9, 1.2, 1.5, 2, 5.5, 1.2345678901234, 1 / 3, 100, 1e4]),
                     b=r.choice([0, 0.25, 0.4, 0.75, 1, 0.7123456789, 2 / 3]),
                     delta=r.choice([0, 0.25, 0.5, 1, 1.75, 0.123456789]), dtype=dtype or r.choice(["float32", "float64"]))
            if p["k1"] == 0 and (m == "bm25+" or (m == "bm25l" and p["delta"] == 0)):
                continue
            i = idf or (m if r.random() < 0.5 else r.choice(METHODS))
            return m, i, p

    def query(self, known, unknown, maxlen=5, p_unknown=0.2, p_empty=0.05, allow_empty=True):
        r = self.rng
        if allow_empty and r.random() < p_empty:
            return []
        q = []
        for _ in range(r.randint(1, maxlen) if r.random() > 0.06 else r.randint(8, 30)):
            x = r.random()
            if unknown and x < p_unknown:
                q.append(r.choice(unknown))
            elif x > 0.96:
                q.append(0)
            elif known:
                q.append(r.choice(known))
            elif unknown:
                q.append(r.choice(unknown))
            else:
                q.append(0)
        if len(q) > 1 and r.random() < 0.3:
            q.append(q[0])
        return q

    def weights(self, n, style=None):
        r = self.rng
        style = style or r.choice(["01", "frac", "neg", "zeros", "ones", "int", "bool", "f32", "one", "allneg"])
        if style == "01":
            return dict(w=[r.choice([0, 1]) for _ in range(n)], dtype=r.choice(["float32", "float64", "int32", "int64"]))
        if style == "frac":
            return dict(w=[r.choice([0, 0.5, 0.25, 1, 2, 10, 0.1, 1 / 3, 1e-9, 123456.789]) for _ in range(n)], dtype="float64")
        if style == "f32":
            return dict(w=[r.choice([0, 0.5, 0.25, 1, 2, 10]) for _ in range(n)], dtype="float32")
        if style == "neg":
            return dict(w=[r.choice([-1, -0.5, 0, 1, 3]) for _ in range(n)], dtype="float64")
        if style == "allneg":
            return dict(w=[r.choice([-1, -2, -0.25, -1e-6, -1e6]) for _ in range(n)], dtype="float64")
        if style == "zeros":
            return dict(w=[0] * n, dtype="float32")
        if style == "ones":
            return dict(w=[1] * n, dtype="float64")
        if style == "one":
            w = [0] * n
            w[r.randrange(n)] = 1
            return dict(w=w, dtype="float32")
        if style == "int":
            return dict(w=[r.choice([0, 1, 2, -3]) for _ in range(n)], dtype=r.choice(["int64", "int32", "int8"]))
        if style == "bool":
            return dict(w=[r.choice([True, False]) for _ in range(n)], dtype="bool")


ID_FORMS = ("idlists", "pair", "tokenized", "object", "object_tuple")
STR_FORMS = ("tokens", "tuples", "gen", "iter", "tupleoftokens", "shared")


class History:
    """Builds one case: the events and, for the generator, what the retrievers hold."""

    def __init__(self, g, toks, tag):
        self.g, self.rng = g, g.rng
        self.case = dict(toks=toks, ev=[], par={}, tag=tag)
        self.st = {}
        self.dirs = {}
        self.objs = {}
        self.T = list(range(1, len(toks)))

    def add(self, **e):
        e.setdefault("x", {})
        self.case["ev"].append(e)
        return e

    def new(self, r, method=None, idf=None, dtype=None, backend="numpy", int_dtype=None, **par):
        m, i, p = self.g.params(method, idf, dtype)
        p.update(par)
        x = dict(k1=p["k1"], b=p["b"], delta=p["delta"], dtype=p["dtype"], method=m, backend=backend)
        if i != m or self.rng.random() < 0.5:
            x["idf_method"] = i
        if int_dtype:
            x["int_dtype"] = int_dtype
        self.case["par"][r] = p
        self.st[r] = dict(method=m, idf=i, docs=None, extra=[], backend=backend, form=None, corpus=None, x=x)
        return self.add(op="new", r=r, method=m, idf=i, x=x)

    def numbering(self, toks, form, style=None):
        r = self.rng
        order = list(toks)
        r.shuffle(order)
        if form == "idlists":
            style = style or r.choice(["dense", "gaps", "offset", "sorted"])
            if style == "dense":
                nums = list(range(len(order)))
            elif style == "sorted":
                order.sort()
                nums = list(range(len(order)))
            elif style == "gaps":
                nums = r.sample(range(3 * len(order) + 1), len(order))
            else:
                nums = list(range(7, 7 + len(order)))
        else:
            nums = list(range(len(order)))
        dorder = list(order)
        if r.random() < 0.6:
            r.shuffle(dorder)
        return [[t, n] for t, n in zip(order, nums)], dorder

    def index(self, r, docs, form=None, extra=None, valid=True, style=None, **x):
        rng = self.rng
        s = self.st[r]
        form = form or rng.choice(STR_FORMS + ID_FORMS)
        used = sorted({t for d in docs for t in d})
        x = dict(x, form=form)
        if form in ID_FORMS:
            if form != "idlists":
                if extra is None:
                    us = set(used)
                    rest = [t for t in self.T if t not in us]
                    extra = rng.sample(rest, rng.randint(0, min(3, max(0, len(rest) - 1)))) if rng.random() < 0.5 else []
                    if 0 not in used and rng.random() < 0.3:
                        extra = extra + [0]
            else:
                extra = []
            x["num"], x["order"] = self.numbering(used + [t for t in extra if t not in set(used)], form, style)
        else:
            extra = []
        if "create_empty" not in x and rng.random() < 0.25 and form != "idlists":
            x["create_empty"] = rng.random() < 0.5
        if valid:
            has_empty = x.get("create_empty", True) or 0 in used or 0 in extra
            s.update(docs=docs, extra=list(extra), form=form, has_empty=has_empty,
                     known=used + [t for t in extra if t not in set(used)])
        return self.add(op="index", r=r, docs=docs, extra=list(extra), valid=valid, x=x)

    def pools(self, r):
        s = self.st[r]
        known = [t for t in s["known"] if t]
        ks = set(known)
        return known, [t for t in self.T if t not in ks]

    def reps(self, r):
        return ["int"] if self.st[r]["form"] == "idlists" else ["str", "tuple", "int", "tokenized", "pair"]

    def fix_q(self, r, rep, qs):
        """Restrict queries to what the documentation allows for this representation."""
        s = self.st[r]
        if rep in ("int",):
            out = []
            for q in qs:
                if q and not any(t in s["known"] for t in q):
                    # unknown token IDs only: documented ValueError without the empty token;
                    # with it, what the query stands for is only settled by the documentation
                    # when no document holds that token
                    if not s["has_empty"] or 0 in s["known"]:
                        q = [] if not s["known"] else [s["known"][0]]
                out.append(q)
            qs = out
        if rep == "tuple":
            if len(qs) > 0 and len(qs[0]) == 0:
                known, unk = self.pools(r)
                qs = [[(known or unk or [0])[0]]] + qs[1:]
        return qs

    def score(self, r, q=None, rep=None, mask=None, valid=True, **x):
        rng = self.rng
        s = self.st[r]
        known, unk = self.pools(r)
        rep = rep or rng.choice(["int"] if s["form"] == "idlists" else ["str", "int"])
        if q is None:
            q = self.g.query(known, unk if rep == "str" else [], allow_empty=False)
        if rep == "int" and valid:
            ok = set(s["known"]) | ({0} if s["has_empty"] else set())
            q = [t for t in q if t in ok]
            if not q:
                if s["form"] == "idlists" or not known:
                    if not known:
                        return None
                q = [known[0]]
        if mask is not None:
            x["mask"] = mask
        return self.add(op="score", r=r, rep=rep, q=q, valid=valid, dtype=self.case["par"][r]["dtype"], x=x)

    def retrieve(self, r, qs=None, k=None, rep=None, sorted=None, mask=None, corpus=None, valid=True, nq=None, **x):
        rng = self.rng
        s = self.st[r]
        known, unk = self.pools(r)
        n = len(s["docs"])
        rep = rep or rng.choice(self.reps(r))
        if qs is None:
            qs = [self.g.query(known, unk) for _ in range(nq or rng.choice([1, 1, 2, 3, 5]))]
        qs = self.fix_q(r, rep, qs)
        if k is None:
            k = rng.choice([1, n, rng.randint(1, n), min(n, 3)])
        if sorted is None:
            sorted = rng.random() < 0.7
        if rep == "int" and "unk" not in x:
            x["unk"] = [rng.choice([0, 1, 2, 50, -1, -2, 10 ** 6]) for _ in range(3)]
        if rep in ("tokenized", "pair"):
            x.setdefault("qbase", 0 if rep == "tokenized" else rng.choice([0, 0, 3]))
            x.setdefault("qstep", 1)
        if mask is not None:
            x["mask"] = mask
        if corpus is not None:
            x["corpus"] = corpus
        has = corpus is not None or s["corpus"] is not None
        if has:
            x["ndocs"] = n
        return self.add(op="retrieve", r=r, rep=rep, qs=qs, k=k, sorted=sorted, valid=valid,
                        dtype=self.case["par"][r]["dtype"], hascorpus=has, x=x)

    def attach(self, r, corpus):
        self.st[r]["corpus"] = corpus
        return self.add(op="attach", r=r, codes=[], x=dict(corpus=corpus))

    def activate(self, r):
        return self.add(op="activate", r=r)

    def noise(self, r, kind, **x):
        return self.add(op="noise", r=r, x=dict(x, kind=kind))

    def save(self, r, d, corpus=None, **x):
        s = self.st[r]
        if corpus is not None:
            x["corpus"] = corpus
        old = self.dirs.get(d)
        c = corpus if corpus is not None else s["corpus"] if s["corpus"] is not None else (old or {}).get("corpus")
        self.dirs[d] = dict(s, corpus=c, par=dict(self.case["par"][r]))
        return self.add(op="save", r=r, dir=d, given=corpus is not None, codes=[], x=x)

    def load(self, r, d, src=None, withcorpus=False, valid=True, **x):
        if valid:
            s = dict(self.dirs[d])
            self.case["par"].setdefault(r, s["par"])
            assert self.case["par"][r] == s["par"]
            if not withcorpus:
                s["corpus"] = None
            if src:
                x["src"] = src
            p = s["x"]
            x["params"] = {k: p[k] for k in ("k1", "b", "delta", "dtype", "method", "backend", "int_dtype") if k in p}
            x["params"]["idf_method"] = p.get("idf_method", p["method"])
            self.st[r] = s
        return self.add(op="load", r=r, dir=d, withcorpus=withcorpus, valid=valid, x=x)

    def twin(self, r, s, **x):
        return self.add(op="twin", r=r, s=s, x=x)

    def corpus(self, r):
        return self.add(op="corpus", r=r)

    # -- objects the caller keeps using ------------------------------------------------------
    def object(self, o, kind, docs, old=None, **x):
        rng = self.rng
        used = sorted({t for d in docs for t in d})
        ob = dict(kind=kind, docs=docs, extra=[])
        x = dict(x, kind=kind, docs=docs)
        if kind == "vocab":
            us = set(used)
            rest = [t for t in self.T if t not in us]
            ob["extra"] = rng.sample(rest, rng.randint(0, min(2, max(0, len(rest) - 2))))
            x["num"], x["order"] = self.numbering(used + ob["extra"], "pair")
        if kind == "tokenizer":
            if old is not None and not x.get("reset"):
                ob["extra"] = sorted(set(old["extra"]) | (set(x.get("learn", [])) - set(used)))
                ob["docs"] = x["docs"] = old["docs"]
                used = sorted({t for d in ob["docs"] for t in d})
                ob["extra"] = [t for t in ob["extra"] if t not in used]
            else:
                ob["extra"] = [t for t in x.get("learn", []) if t not in used]
        self.objs[o] = ob
        return self.add(op="object", o=o, x=x)

    def index_object(self, r, o, valid=True, **x):
        ob = self.objs[o]
        s = self.st[r]
        used = sorted({t for d in ob["docs"] for t in d})
        form = "tokens" if ob["kind"] == "lists" else self.rng.choice(["pair", "tokenized", "object"])
        x.setdefault("create_empty", True)
        if valid:
            s.update(docs=[list(d) for d in ob["docs"]], extra=list(ob["extra"]), form=form, has_empty=True,
                     known=used + [t for t in ob["extra"] if t not in set(used)])
        return self.add(op="index", r=r, docs=[list(d) for d in ob["docs"]], extra=list(ob["extra"]), valid=valid,
                        x=dict(x, form=form, use=o))
