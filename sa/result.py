"""What an analysis hands to the runner."""


class Result:
    def __init__(self):
        self.findings = []        # Finding(props, key, text, where)
        self.ok = {}              # property -> number of discharged obligations
        self.undet = {}           # property -> {what: count}
        self.samples = {}         # property -> [text]
        self.scope = {}           # free-form counts of what was analysed

    def good(self, prop, what, n=1):
        if not isinstance(prop, str):
            for p in prop:
                self.good(p, what, n)
            return
        self.ok[prop] = self.ok.get(prop, 0) + n
        s = self.samples.setdefault(prop, [])
        if len(s) < 400 and what not in s[-40:]:
            s.append(what)

    def undecided(self, props, what):
        for p in ([props] if isinstance(props, str) else props):
            d = self.undet.setdefault(p, {})
            d[what] = d.get(what, 0) + 1

    def merge(self, o):
        self.findings += o.findings
        for p, n in o.ok.items(): self.ok[p] = self.ok.get(p, 0) + n
        for p, d in o.undet.items():
            for k, n in d.items():
                e = self.undet.setdefault(p, {})
                e[k] = e.get(k, 0) + n
        for p, l in o.samples.items(): self.samples.setdefault(p, []).extend(l)
        for k, v in o.scope.items(): self.scope[k] = v


class Finding:
    __slots__ = ("props", "key", "text", "where")

    def __init__(self, props, key, text, where=""):
        self.props, self.key, self.text, self.where = frozenset([props] if isinstance(props, str) else props), key, text, where
