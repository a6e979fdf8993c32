"""Turns the state graph of a specification into test programs that cover its every edge."""
import collections
import os
import re

import vlib


def programs(module, cfg, scratch, timeout=200, var='op', limit=100000, sep=' '):
    """module keeps the last operation in variable `op`. Returns (programs, Tlc result, edges)."""
    dot = os.path.join(scratch, 'graph')
    r = vlib.tlc(module, cfg, extra=('-dump', 'dot', dot), timeout=timeout, workers=1)
    if not r.ok:
        raise vlib.CheckError(f'{module}: ' + r.text[-2000:])
    ops, init, succ = {}, [], collections.defaultdict(list)
    edges = 0
    node = re.compile(r'^(-?\d+) \[label="(.*?)"(,style = filled)?\]')
    edge = re.compile(r'^(-?\d+) -> (-?\d+)')
    opre = re.compile(var + r' = \\"(.*?)\\"')
    with open(dot + '.dot') as f:
        for line in f:
            m = edge.match(line)
            if m:
                succ[m.group(1)].append(m.group(2))
                edges += 1
                continue
            m = node.match(line)
            if m:
                ops[m.group(1)] = opre.search(m.group(2)).group(1)
                if m.group(3):
                    init.append(m.group(1))
    os.unlink(dot + '.dot')
    # shortest path to every node
    path, todo = {}, collections.deque()
    for i in init:
        path[i] = []
        todo.append(i)
    while todo:
        n = todo.popleft()
        for s in succ[n]:
            if s not in path:
                path[s] = path[n] + [ops[s]]
                todo.append(s)
    # cover the edges: follow uncovered edges as long as possible
    left = {n: collections.deque(dict.fromkeys(s for s in succ[n] if s != n)) for n in path}
    progs = []
    for n in sorted(path, key=lambda x: len(path[x])):
        while left[n] and len(progs) < limit:
            cur, p = n, list(path[n])
            while left[cur] and len(p) < 60:
                nxt = left[cur].popleft()
                p.append(ops[nxt])
                cur = nxt
            progs.append(p)
    return [sep.join(p) for p in progs], r, edges
