"""CAS configurations: the record C of the specification and the descriptor that gives it to the library."""
import os, json, hashlib, itertools, threading
import vals
from xml.sax.saxutils import escape

BT = ["uima.cas." + n for n in
      ["TOP", "Integer", "Float", "String", "ArrayBase", "FSArray", "FloatArray", "IntegerArray", "StringArray",
       "ListBase", "FSList", "EmptyFSList", "NonEmptyFSList", "FloatList", "EmptyFloatList", "NonEmptyFloatList",
       "IntegerList", "EmptyIntegerList", "NonEmptyIntegerList", "StringList", "EmptyStringList", "NonEmptyStringList",
       "Boolean", "Byte", "Short", "Long", "Double", "BooleanArray", "ByteArray", "ShortArray", "LongArray", "DoubleArray",
       "Sofa", "AnnotationBase"]] + ["uima.tcas.Annotation", "uima.tcas.DocumentAnnotation"]
BP = [0, 1, 1, 1, 1, 5, 5, 5, 5, 1, 10, 11, 11, 10, 14, 14, 10, 17, 17, 10, 20, 20, 1, 1, 1, 1, 1, 5, 5, 5, 5, 5, 1, 1, 34, 35]
BK = ["top", "int", "float", "str", "abase", "afs", "afloat", "aint", "astr", "lbase", "lfs", "efs", "nfs", "lfloat", "efloat",
      "nfloat", "lint", "eint", "nint", "lstr", "estr", "nstr", "bool", "byte", "short", "long", "double",
      "abool", "abyte", "ashort", "along", "adouble", "sofa", "annbase", "ann", "doc"]
BF = [(13, 1, "head"), (13, 11, "tail"), (16, 3, "head"), (16, 14, "tail"), (19, 2, "head"), (19, 17, "tail"), (22, 4, "head"),
      (22, 20, "tail"), (33, 2, "sofaNum"), (33, 4, "sofaID"), (33, 4, "mimeType"), (33, 1, "sofaArray"), (33, 4, "sofaString"),
      (33, 4, "sofaURI"), (35, 33, "sofa"), (35, 2, "begin"), (35, 2, "end"), (36, 4, "language")]
NBT, NBF = 36, 18
CASNAMES = ["Annotation", "TOP", "String", "Sofa", "FSArray", "Integer", "DocumentAnnotation", "AnnotationBase", "FSList", "EmptyFSList", "NonEmptyFSList",
            "IntegerArray", "View", "XMI", "Float", "CAS"]
CASFEATS = ["id", "begin", "end", "sofa", "elements", "size", "head", "tail", "language", "sofaNum", "sofaID", "mimeType", "members", "value", "name", "type", "Begin",
            "sofaString", "supertype", "null", "ref", "indexed"]
PRIM = {"int", "float", "str", "strsub", "bool", "byte", "short", "long", "double"}
ARR = {"afs", "aint", "afloat", "astr", "abool", "abyte", "ashort", "along", "adouble"}
ELEM = {"aint": "int", "afloat": "float", "astr": "str", "abool": "bool", "abyte": "byte", "ashort": "short", "along": "long",
        "adouble": "double", "afs": "ref"}
ARRT = {"ref": 6, "float": 7, "int": 8, "str": 9, "bool": 28, "byte": 29, "short": 30, "long": 31, "double": 32}

class Cfg:
    """types: [(parent, [allowed tokens])], feats: [(domain, range)], indexes: [(type, kind, [(feat, rev)])] beyond the
    built-in annotation index, prios: chains of types"""
    def __init__(self, types, feats, indexes=(), prios=(), name="v"):
        self.types, self.feats, self.prios = list(types), list(feats), list(prios)
        self.ix = [(35, "sorted", [(16, 0), (17, 1), (0, 0)])] + list(indexes)
        self.name = name
        self.nt = NBT + len(self.types)
        self.nf = NBF + len(self.feats)
        self.rank = []
        self.uid = None
        self.mr = [0] * len(self.feats)      # multipleReferencesAllowed
        self.pk = [name] * len(self.types)   # packages of the types
        self.ln, self.fb = None, None        # local names of the types, names of the features
        self.rw = 0                          # how often the description is written and read back before use

    def parent(self, t): return BP[t - 1] if t <= NBT else self.types[t - NBT - 1][0]
    def kind(self, t):
        if t <= NBT: return BK[t - 1]
        return "strsub" if self.types[t - NBT - 1][0] == 4 else "fs"
    def acc(self, t):
        k = self.kind(t)
        if k in ("str", "strsub"): return "str"
        return k if k in PRIM else "ref"
    def dom(self, f): return BF[f - 1][0] if f <= NBF else self.feats[f - NBF - 1][0]
    def rng(self, f): return BF[f - 1][1] if f <= NBF else self.feats[f - NBF - 1][1]
    def facc(self, f): return self.acc(self.rng(f))
    def subsumes(self, a, b):
        while b:
            if a == b: return True
            b = self.parent(b)
        return False
    def subtypes(self, a): return [t for t in range(1, self.nt + 1) if self.subsumes(a, t)]
    def approp(self, t, f): return self.subsumes(self.dom(f), t)
    def featsof(self, t): return [f for f in range(1, self.nf + 1) if self.approp(t, f)]
    def allowed(self, t): return self.types[t - NBT - 1][1]
    def creatable(self, t): return self.kind(t) not in PRIM and self.kind(t) not in ARR
    def tname(self, t):
        if t <= NBT: return BT[t - 1]
        p, n = self.pk[t - NBT - 1], self.ln[t - NBT - 1] if self.ln else "T%d" % t
        return "%s.%s" % (p, n) if p else n
    def fbase(self, f): return BF[f - 1][2] if f <= NBF else self.fb[f - NBF - 1] if self.fb else "f%d" % f
    def rename(self, rng):
        """names that are easily taken for one another: prefixes, cases, names of other packages and of unrelated types"""
        case = lambda w: ["".join(x) for x in itertools.product(*[(ch.lower(), ch.upper()) for ch in w])]
        k = rng.choice(["pre", "case", "same", "cas", ""])
        if k:
            pool = {"pre": ["T" + "a" * i for i in range(12)] + ["T" + "a" * i + "b" for i in range(4)], "case": case("type"), "same": ["T", "T1", "T11", "t"], "cas": CASNAMES}[k]
            self.ln = []
            for i in range(len(self.types)):
                free = [n for n in pool if (self.pk[i], n) not in zip(self.pk, self.ln)]
                self.ln.append(rng.choice(free) if free else "T%d" % i)
        k = rng.choice(["pre", "case", "same", "cas", ""])
        if k:
            pool = {"pre": ["f" * i for i in range(1, 24)], "case": case("feat"), "same": ["f", "g"], "cas": CASFEATS}[k]
            self.fb, rel = [], lambda a, b: self.subsumes(a, b) or self.subsumes(b, a)
            for i, (d, r) in enumerate(self.feats):
                # one name may be that of features of types neither of which inherits from the other
                bad = {n for a, b, n in BF if rel(a, d)} | {n for n, (a, b) in zip(self.fb, self.feats) if rel(a, d)}
                free = [n for n in pool if n not in bad]
                self.fb.append(rng.choice(free) if free else "f%d" % (i + NBF + 1))
        return self
    def fname(self, f): return self.tname(self.dom(f)) + ":" + self.fbase(f)
    def ixname(self, i): return "AnnotationIndex" if i == 1 else "Ix%d" % i
    def priotypes(self): return [1, 6, 7, 8, 9, 28, 29, 30, 31, 32, 34, 35, 36] + [t for t in range(NBT + 1, self.nt + 1) if self.kind(t) == "fs"]

    def tla(self):
        return {"ut": [{"p": p, "al": list(al)} for p, al in self.types],
                "uf": [{"d": d, "r": r, "m": m} for (d, r), m in zip(self.feats, self.mr)],
                "ix": [{"ty": t, "kind": k, "keys": [{"f": f, "rev": r} for f, r in ks]} for t, k, ks in self.ix],
                "pr": [list(c) for c in self.prios], "rank": self.rank, "uid": self.uid or 0,
                "k": {"init": vals.TOK["_InitialView"], "text": vals.TOK["text"], "empty": vals.TOK[""], "schemes": [vals._units("mem"), vals._units("m2")]},
                "fb": vals.LEBYTES["float"], "lb": vals.LEBYTES["long"], "db": vals.LEBYTES["double"],
                "st": vals.UNITS[1:]}

    def xml(self, drop=(), fdrop=()):
        """drop, fdrop: types and features left out"""
        fgone = lambda j: NBF + 1 + j in fdrop or self.feats[j][0] in drop or self.feats[j][1] in drop
        igone = lambda t, ks: t in drop or any(f > NBF and fgone(f - NBF - 1) for f, _ in ks)
        o = ['<?xml version="1.0" encoding="UTF-8"?>',
             '<analysisEngineDescription xmlns="http://uima.apache.org/resourceSpecifier">',
             '<frameworkImplementation>org.apache.uima.cpp</frameworkImplementation><primitive>true</primitive>',
             '<annotatorImplementationName>none</annotatorImplementationName><analysisEngineMetaData><name>v</name>',
             '<description/><version>1</version><vendor/><configurationParameters/><configurationParameterSettings/>',
             '<typeSystemDescription><types>']
        for i, (p, al) in enumerate(self.types):
            t = NBT + 1 + i
            if t in drop: continue
            o.append('<typeDescription><name>%s</name><description/><supertypeName>%s</supertypeName>' % (self.tname(t), self.tname(p)))
            if p == 4:
                o.append('<allowedValues>' + ''.join('<value><string>%s</string><description/></value>' % escape(vals.STR[a]) for a in al) + '</allowedValues>')
            fs = [j for j, (d, r) in enumerate(self.feats) if d == t and not fgone(j)]
            if fs:
                o.append('<features>')
                for j in fs:
                    o.append('<featureDescription><name>%s</name><description/><rangeTypeName>%s</rangeTypeName>%s</featureDescription>'
                             % (self.fbase(NBF + 1 + j), self.tname(self.feats[j][1]),
                                '<multipleReferencesAllowed>true</multipleReferencesAllowed>' if self.mr[j] else ''))
                o.append('</features>')
            o.append('</typeDescription>')
        o.append('</types></typeSystemDescription>')
        if self.prios:
            o.append('<typePriorities>')
            for c in self.prios:
                o.append('<priorityList>' + ''.join('<type>%s</type>' % self.tname(t) for t in c if t not in drop) + '</priorityList>')
            o.append('</typePriorities>')
        if len(self.ix) > 1:
            o.append('<fsIndexCollection><fsIndexes>')
            for i, (t, k, ks) in enumerate(self.ix):
                if i == 0 or igone(t, ks): continue
                o.append('<fsIndexDescription><label>%s</label><typeName>%s</typeName><kind>%s</kind>' % (self.ixname(i + 1), self.tname(t), k))
                o.append('<keys>')
                for f, r in ks:
                    if f == 0: o.append('<fsIndexKey><typePriority/></fsIndexKey>')
                    else: o.append('<fsIndexKey><featureName>%s</featureName><comparator>%s</comparator></fsIndexKey>'
                                   % (self.fbase(f), "reverse" if r else "standard"))
                o.append('</keys></fsIndexDescription>')
            o.append('</fsIndexes></fsIndexCollection>')
        o.append('<capabilities><capability><inputs/><outputs/><languagesSupported/></capability></capabilities>'
                 '<operationalProperties><modifiesCas>true</modifiesCas><multipleDeploymentAllowed>true</multipleDeploymentAllowed>'
                 '<outputsNewCASes>false</outputsNewCASes></operationalProperties></analysisEngineMetaData></analysisEngineDescription>')
        return "\n".join(o)

    def reduced(self, d, drop, fdrop):
        """what the driver needs to know of this configuration without some types and features"""
        return self.driver(d, self.xml(drop, fdrop))
    def driver(self, d, x=None):
        red, x = x is not None, x or self.xml()
        h = hashlib.sha1(x.encode()).hexdigest()[:16] + ("r%d" % self.rw if self.rw else "")
        p = os.path.join(d, "cfg-%s.xml" % h)
        if not os.path.exists(p):
            tmp = "%s.%d" % (p, threading.get_ident())
            with open(tmp, "w") as f: f.write(x)
            os.replace(tmp, p)
        if red: return {"id": h, "xml": p, "tn": [], "fn": [], "ix": []}
        return {"id": h, "xml": p, "rw": self.rw, "tn": [self.tname(t) for t in range(1, self.nt + 1)],
                "fn": [self.fname(f) for f in range(1, self.nf + 1)], "ix": [self.ixname(i + 1) for i in range(len(self.ix))]}

RANGES_SCALAR = [2, 3, 4, 23, 24, 25, 26, 27]
def heapcfg(rng=None):
    """one user hierarchy carrying a feature of every kind of range"""
    T = vals.TOK
    types = [(1, []), (37, []), (38, []), (35, []), (40, []), (4, [T["red"], T["green"], T["blue"]]), (37, []), (34, []), (4, [T[""], T["a"]])]
    feats = []
    for r in RANGES_SCALAR: feats.append((37, r))
    for r in [1, 37, 38, 35, 6, 7, 8, 9, 28, 29, 30, 31, 32, 11, 14, 17, 20, 5, 10]: feats.append((38, r))
    feats += [(39, 42), (39, 45), (40, 2), (40, 4), (41, 40), (41, 42), (43, 2), (37, 42), (44, 1)]
    return Cfg(types, feats, name="heap")

def rndcfg(rng, ann=True):
    """a random type system with features, indexes and type priorities"""
    T = vals.TOK
    n = rng.randint(3, 8)
    types, feats = [], []
    for i in range(n):
        t = NBT + 1 + i
        r = rng.random()
        if r < .12: types.append((4, rng.sample([T["red"], T["green"], T["blue"], T["a"], T["b"], T[""]], rng.randint(1, 3))))
        else:
            cand = [1, 35] + ([34] if r < .3 else []) + [NBT + 1 + j for j in range(i) if types[j][0] != 4] * 2
            types.append((rng.choice(cand), []))
    fs = [NBT + 1 + i for i in range(n) if types[i][0] != 4]
    if not fs:
        types.append((35, [])); fs = [NBT + len(types)]
    ss = [NBT + 1 + i for i in range(n) if types[i][0] == 4]
    for _ in range(rng.randint(2, 12)):
        feats.append((rng.choice(fs), rng.choice(RANGES_SCALAR + [1, 35, 6, 8, 9, 11, 17, 20, 28, 31] + ss * 3 + fs * 2)))
    c = Cfg(types, feats)
    idx = []
    for _ in range(rng.randint(1, 4)):
        t = rng.choice(fs + [1, 35])
        k = rng.choice(["sorted", "sorted", "set", "bag"])
        keyf = [f for f in c.featsof(t) if c.facc(f) != "ref"]
        ks = [(f, rng.randint(0, 1)) for f in rng.sample(keyf, min(len(keyf), rng.randint(1, 3)))] if keyf else []
        if (rng.random() < .4 or not ks): ks.insert(rng.randint(0, len(ks)), (0, 0))
        idx.append((t, k, ks))
    idx.append((1, "sorted", [(0, 0)]))
    pr = []
    pool = [t for t in fs + [35, 36]]
    rng.shuffle(pool)
    for _ in range(rng.randint(0, 2)):
        a, b = sorted(rng.sample(range(len(pool) + 1), 2)) if len(pool) > 1 else (0, 1)
        if b - a > 1: pr.append([pool[i] for i in range(a, b)])
    return Cfg(types, feats, idx, pr).rename(rng)

def sercfg(rng, indexed=True):
    """a type system with features of every kind of range, shared and inlined, in several packages"""
    c = rndcfg(rng)
    fs = [t for t in range(NBT + 1, c.nt + 1) if c.kind(t) == "fs"]
    feats = list(c.feats)
    rs = [6, 7, 8, 9, 28, 29, 30, 31, 32, 11, 14, 17, 20]
    for r in rng.sample(rs, rng.randint(3, 9)) + rng.sample([1, 2, 3, 4, 23, 24, 25, 26, 27, 5, 10, 33] + fs, 3): feats.append((rng.choice(fs), r))
    rng.shuffle(feats)
    # the indexes of rndcfg name features by their old numbers
    old = {i + 1 + NBF: f for i, f in enumerate(c.feats)}
    new = {}
    for i, f in enumerate(feats): new.setdefault(f, i + 1 + NBF)
    ix = [(t, k, [(f if f <= NBF else new[old[f]], r) for f, r in ks]) for t, k, ks in c.ix[1:]]
    # an index keyed by something that does not lie in the main heap
    wide = [NBF + 1 + i for i, (a, b) in enumerate(feats) if b in (4, 24, 25, 26, 27)]
    for f in rng.sample(wide, min(len(wide), rng.randint(0, 2))):
        ix.insert(0, (feats[f - NBF - 1][0], rng.choice(["sorted", "set"]), [(f, rng.randint(0, 1))]))
    # types no index is declared for
    if rng.random() < .35:
        ix = [(t, k, [q for q in ks if q[0]]) for t, k, ks in ix if t != 1]
        ix = [q for q in ix if q[2]]
    d = Cfg(c.types, feats, ix, c.prios)
    d.mr = [rng.randint(0, 1) if rng.random() < .8 else 0 for _ in feats]
    pks = rng.choice([["v"], ["a.v", "b.v", "v"], ["", "v"], ["a.b.c", "x", "c"], ["a.v", "b.v", "c.v", "v2", ""], ["x.cas", "cas", "uima.cas2", "tcas"], ["v", "V", "vv", "v.v"]])
    d.pk = [rng.choice(pks) for _ in d.types]
    return d.rename(rng)
