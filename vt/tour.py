"""Transition tours over labelled state graphs printed by TLC (lines <<"EDGE", from, op, to>>)."""
import json, random, re
from collections import deque

EDGE = re.compile(r'^<<"EDGE", "(.*)", "(.*)", "(.*)">>$')


def edges(out):
    r, seen = [], set()
    for line in out.splitlines():
        m = EDGE.match(line)
        if m:
            f, o, t = [json.loads(x.replace('\\"', '"')) for x in m.groups()]
            key = line
            if key not in seen:
                seen.add(key)
                r.append((json.dumps(f), o, json.dumps(t)))
    return r


def tours(edgelist, start, seed=1, maxlen=400, limit=None):
    """Walks from start which together take every edge reachable from start. Returns (list of op lists, covered, total)."""
    rnd = random.Random(seed)
    adj = {}
    for i, (f, o, t) in enumerate(edgelist):
        adj.setdefault(f, []).append((i, o, t))
    for v in adj.values():
        rnd.shuffle(v)
    nxt = {f: list({t: o for _, o, t in v}.items()) for f, v in adj.items()}
    nxt = {f: [(o, t) for t, o in v] for f, v in nxt.items()}
    todo = {f: [e for e in v] for f, v in adj.items()}
    left = sum(len(v) for v in todo.values())
    total = left
    res, steps = [], 0
    while left and (limit is None or steps < limit):
        cur, walk = start, []
        while len(walk) < maxlen:
            if todo.get(cur):
                i, o, t = todo[cur].pop()
                left -= 1
                walk.append(o)
                cur = t
                continue
            # shortest path to a state with an untaken edge
            prev, q, goal = {cur: None}, deque([cur]), None
            while q:
                x = q.popleft()
                if todo.get(x):
                    goal = x
                    break
                for o, t in nxt.get(x, ()):
                    if t not in prev:
                        prev[t] = (x, o)
                        q.append(t)
            if goal is None:
                break
            path = []
            cur = goal
            while prev[goal] is not None:
                goal, o = prev[goal]
                path.append(o)
            walk += reversed(path)
        if not walk:
            break
        res.append(walk)
        steps += len(walk)
    return res, total - left, total
