"""Walks that cover all the transitions of a state graph printed by TLC."""
import json, re
from collections import deque
from vlib import *


def key(s):
    return json.dumps(s, sort_keys=True)


def edges(text):
    """[(state, action, state)] from lines "EDGE [s, a, t]" (JSON)."""
    out = {}
    for m in re.finditer(r'^"EDGE (.*)"$', text, re.M):
        s, a, t = json.loads(m.group(1).replace('\\"', '"').replace('\\\\', '\\'))
        out[(key(s), json.dumps(a))] = key(t)
    return out


def closure(es, init, keep):
    """The edges in keep, and those of shortest paths from init to them."""
    succ = {}
    for (s, a), t in es.items():
        succ.setdefault(s, []).append((a, t))
    prev, q = {init: None}, deque([init])
    while q:
        s = q.popleft()
        for a, t in succ.get(s, ()):
            if t not in prev:
                prev[t] = (s, a)
                q.append(t)
    out = set(keep)
    for s, _ in keep:
        while prev[s] and prev[s] not in out:
            out.add(prev[s])
            s = prev[s][0]
    return {k: es[k] for k in es if k in out}


def walks(es, init, maxlen=200):
    """Walks (lists of actions) from init that cover every transition."""
    succ = {}
    for (s, a), t in es.items():
        succ.setdefault(s, []).append((a, t))
    todo = {s: [x for x in l] for s, l in succ.items()}
    init = key(init)
    out, cur, w = [], init, []
    left = sum(len(l) for l in todo.values())
    while left:
        # nearest state with a transition not covered
        prev, q, goal = {cur: None}, deque([cur]), None
        while q:
            s = q.popleft()
            if todo.get(s):
                goal = s
                break
            for a, t in succ.get(s, ()):
                if t not in prev:
                    prev[t] = (s, a)
                    q.append(t)
        if goal is None or len(w) > maxlen:
            if cur == init and not w:
                break
            out.append(w)
            cur, w = init, []
            continue
        path = []
        s = goal
        while prev[s]:
            path.append(prev[s][1])
            s = prev[s][0]
        w += [json.loads(a) for a in reversed(path)]
        a, t = todo[goal].pop()
        left -= 1
        w.append(json.loads(a))
        cur = t
    if w:
        out.append(w)
    return out
