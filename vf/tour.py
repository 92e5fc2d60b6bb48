"""State graphs printed by TLC (lines <<"EDGE", json>>) and walks that take every transition."""
import collections, json, re


class Graph:
    def __init__(self):
        self.succ = collections.defaultdict(list)      # state -> [(call, state)]
        self.initial = None

    @classmethod
    def parse(cls, out):
        g = cls()
        ids = {}
        seen = set()
        for line in out.splitlines():
            if not line.startswith('<<"EDGE", "'):
                continue
            e = json.loads(json.loads(line[len('<<"EDGE", '):-2]))
            s = ids.setdefault(e["s"], len(ids))
            t = ids.setdefault(e["t"], len(ids))
            key = (s, json.dumps(e["c"], sort_keys=True), t)
            if key in seen:
                continue
            seen.add(key)
            if g.initial is None:
                g.initial = s
            g.succ[s].append((e["c"], t))
        return g

    def edges(self):
        return sum(len(v) for v in self.succ.values())

    def tour(self, rng, maxlen):
        """Episodes (lists of calls from the initial state) that together take every transition."""
        todo = {s: list(range(len(v))) for s, v in self.succ.items()}
        for v in todo.values():
            rng.shuffle(v)
        left = sum(len(v) for v in todo.values())
        while left:
            s, ep = self.initial, []
            while len(ep) < maxlen:
                if todo.get(s):
                    i = todo[s].pop()
                    left -= 1
                    c, s = self.succ[s][i]
                    ep.append(c)
                    continue
                path = self._nearest(s, todo)
                if path is None:
                    break
                for c, t in path:
                    ep.append(c)
                    s = t
            if not ep:
                break
            yield ep

    def _nearest(self, s, todo):
        prev = {s: None}
        q = collections.deque([s])
        while q:
            u = q.popleft()
            if todo.get(u):
                path = []
                while prev[u] is not None:
                    p, c = prev[u]
                    path.append((c, u))
                    u = p
                return path[::-1]
            for c, t in self.succ.get(u, ()):
                if t not in prev:
                    prev[t] = (u, c)
                    q.append(t)
        return None
