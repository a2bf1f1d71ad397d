"""Turning a state graph printed by TLC into call sequences that cover all its transitions."""

from __future__ import annotations

import json
from collections import deque


def key(s):
    return json.dumps(s, sort_keys=True)


class Graph:
    def __init__(self, edges, init=None):
        """edges: dicts with from / act / to (+ anything)."""
        self.out: dict[str, list] = {}
        self.n = 0
        seen = set()
        for e in edges:
            f, a, t = key(e["from"]), key(e["act"]), key(e["to"])
            if (f, a) in seen:
                continue
            seen.add((f, a))
            self.out.setdefault(f, []).append((a, t))
            self.n += 1
        self.init = key(init) if init is not None else key(edges[0]["from"])

    def tours(self, rng, maxlen=40):
        """Sequences of actions (from the initial state) that together take every edge."""
        todo = {s: list(es) for s, es in self.out.items()}
        for es in todo.values():
            rng.shuffle(es)
        left = sum(len(e) for e in todo.values())
        tours = []
        while left:
            cur, seq = self.init, []
            while len(seq) < maxlen:
                if todo.get(cur):
                    a, t = todo[cur].pop()
                    left -= 1
                    seq.append(json.loads(a))
                    cur = t
                    continue
                path = self._nearest(cur, todo)
                if path is None or len(seq) + len(path) > maxlen:
                    break
                for a, t in path:
                    seq.append(json.loads(a))
                    cur = t
            if not seq:
                path = self._nearest(self.init, todo)
                if path is None:
                    break  # unreachable edges
                for a, t in path:
                    seq.append(json.loads(a))
                    cur = t
                while todo.get(cur) and len(seq) < maxlen + len(path):
                    a, t = todo[cur].pop()
                    left -= 1
                    seq.append(json.loads(a))
                    cur = t
            tours.append(seq)
        return tours

    def _nearest(self, src, todo):
        prev = {src: None}
        q = deque([src])
        while q:
            s = q.popleft()
            if s != src and todo.get(s):
                path = []
                while prev[s] is not None:
                    p, a = prev[s]
                    path.append((a, s))
                    s = p
                return path[::-1]
            for a, t in self.out.get(s, ()):
                if t not in prev:
                    prev[t] = (s, a)
                    q.append(t)
        return None
