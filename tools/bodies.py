"""reader for bodies.txt, what the analyser records about every function body of the library"""


class Body:
    def __init__(self, path, vis, at):
        self.path, self.vis, self.at = path, vis, at
        self.externs, self.calls, self.types, self.panics, self.statics, self.indirect = [], [], [], [], [], []


def read(text):
    crates, out, cur = [], [], None
    for l in text.splitlines():
        f = l.strip().split("\t")
        if f[0] == "crates":
            crates = f[1].split()
        elif f[0] == "body":
            cur = Body(*f[1:4])
            out.append(cur)
        elif f[0] in ("call", "mention", "extern"):
            cur.calls.append((f[1], f[2], f[3]))
            if f[0] == "extern":
                cur.externs.append((f[1], f[3]))
        elif f[0] == "type":
            cur.types.append((f[1], f[2]))
        elif f[0] == "panic":
            cur.panics.append((f[1], f[2]))
        elif f[0] == "static":
            cur.statics.append((f[1], f[2]))
        elif f[0] == "indirect":
            cur.indirect.append(f[1])
    return crates, out


class Graph:
    """calls, mentions and lexical nesting (a closure belongs to the body it is written in)"""

    def __init__(self, bodies):
        self.by, self.inner = {}, {}
        for b in bodies:
            self.by.setdefault(b.path, []).append(b)
        for p in self.by:
            if "::{closure" in p:
                self.inner.setdefault(p[: p.rindex("::{closure")], []).append(p)

    def next(self, p):
        out = {c[0] for b in self.by.get(p, []) for c in b.calls if c[0] in self.by}
        out.update(self.inner.get(p, []))
        return out

    def reach(self, starts):
        todo, seen = list(starts), set()
        while todo:
            p = todo.pop()
            if p not in seen:
                seen.add(p)
                todo += self.next(p)
        return seen

    def path(self, start, goal):
        todo, seen = [(start,)], {start}
        while todo:
            p = todo.pop(0)
            if goal(p[-1]):
                return p
            for q in sorted(self.next(p[-1])):
                if q not in seen:
                    seen.add(q)
                    todo.append(p + (q,))
        return None


def reachable(bodies, starts):
    """bodies reachable over calls, mentions and lexical nesting (closures and inner functions of a reached body)"""
    return Graph(bodies).reach([b.path for b in bodies if starts(b)])
