"""Settings trees on the Python side: rendering to YAML-like dicts, flattening back."""

from __future__ import annotations


def leaf(v) -> str:
    """Canonical, type-tagged text of a leaf value."""
    if v is None:
        return "~"
    if isinstance(v, bool):
        return f"b:{v}"
    if isinstance(v, int):
        return f"i:{v}"
    if isinstance(v, float):
        return f"f:{v!r}"
    if isinstance(v, dict) and not v:
        return "{}"
    if isinstance(v, list | tuple):
        return "l:[" + ",".join(leaf(i) if not isinstance(i, dict) else "d:" + repr(sorted(flatten(i))) for i in v) + "]"
    return f"s:{v}"


def flatten(d, prefix=()):
    """Nested dict -> [[path, leaf], ...] (no dotted-key interpretation: keys split on dots are the caller's business)."""
    out = []
    for k, v in d.items():
        p = (*prefix, str(k))
        if isinstance(v, dict) and v:
            out += flatten(v, p)
        else:
            out.append([list(p), leaf(v)])
    return out


class Tree:
    """A tree under construction: {path tuple: python value}; {} and None are the special leaves."""

    def __init__(self, items=None):
        self.d = dict(items or {})

    def can_put(self, path):
        return all(
            not (q[: len(path)] == path or path[: len(q)] == q) for q in self.d
        )

    def put(self, path, value):
        path = tuple(path)
        if self.can_put(path):
            self.d[path] = value
            return True
        return False

    def json(self):
        return [[list(p), leaf(v)] for p, v in self.d.items()]

    def render(self, rng=None, dotted=0.3, cls=dict):
        """A python dict meaning this tree, mixing nested blocks and dotted keys."""
        items = list(self.d.items())
        if rng is not None:
            rng.shuffle(items)
        root = cls()
        for path, v in items:
            self._insert(root, path, v, rng, dotted, cls)
        return root

    def _insert(self, node, path, v, rng, dotted, cls):
        import copy

        path = list(path)
        while True:
            if len(path) == 1:
                node[path[0]] = copy.deepcopy(v)
                return
            if rng is not None and rng.random() < dotted:
                n = rng.randint(2, len(path))
                key = ".".join(path[:n])
                # a dotted key must not collide with one already used here
                if key not in node:
                    if n == len(path):
                        node[key] = copy.deepcopy(v)
                        return
                    node[key] = cls()
                    node, path = node[key], path[n:]
                    continue
            k = path[0]
            if k not in node or not isinstance(node[k], dict):
                node[k] = cls()
            node, path = node[k], path[1:]
