"""Hall symbols of the 230 space groups in their standard settings (first origin
choice, unique axis b, hexagonal axes), and their generators.  Writes
specs/SgTable.tla: the generators of every group as <<W11..W33, w1, w2, w3>>,
translations in 24ths."""
import os, re
import numpy as np
HALL = """
P 1|-P 1|P 2y|P 2yb|C 2y|P -2y|P -2yc|C -2y|C -2yc|-P 2y|-P 2yb|-C 2y|-P 2yc|-P 2ybc|-C 2yc
P 2 2|P 2c 2|P 2 2ab|P 2ac 2ab|C 2c 2|C 2 2|F 2 2|I 2 2|I 2b 2c
P 2 -2|P 2c -2|P 2 -2c|P 2 -2a|P 2c -2ac|P 2 -2bc|P 2ac -2|P 2 -2ab|P 2c -2n|P 2 -2n|C 2 -2|C 2c -2|C 2 -2c|A 2 -2|A 2 -2b|A 2 -2a|A 2 -2ab|F 2 -2|F 2 -2d|I 2 -2|I 2 -2c|I 2 -2a
-P 2 2|P 2 2 -1n|-P 2 2c|P 2 2 -1ab|-P 2a 2a|-P 2a 2bc|-P 2ac 2|-P 2a 2ac|-P 2 2ab|-P 2ab 2ac|-P 2c 2b|-P 2 2n|P 2 2ab -1ab|-P 2n 2ab|-P 2ac 2ab|-P 2ac 2n|-C 2c 2|-C 2bc 2|-C 2 2|-C 2 2c|-C 2b 2|C 2 2 -1bc|-F 2 2|F 2 2 -1d|-I 2 2|-I 2 2c|-I 2b 2c|-I 2b 2
P 4|P 4w|P 4c|P 4cw|I 4|I 4bw|P -4|I -4|-P 4|-P 4c|P 4ab -1ab|P 4n -1n|-I 4|I 4bw -1bw
P 4 2|P 4ab 2ab|P 4w 2c|P 4abw 2nw|P 4c 2|P 4n 2n|P 4cw 2c|P 4nw 2abw|I 4 2|I 4bw 2bw
P 4 -2|P 4 -2ab|P 4c -2c|P 4n -2n|P 4 -2c|P 4 -2n|P 4c -2|P 4c -2ab|I 4 -2|I 4 -2c|I 4bw -2|I 4bw -2c
P -4 2|P -4 2c|P -4 2ab|P -4 2n|P -4 -2|P -4 -2c|P -4 -2ab|P -4 -2n|I -4 -2|I -4 -2c|I -4 2|I -4 2bw
-P 4 2|-P 4 2c|P 4 2 -1ab|P 4 2 -1n|-P 4 2ab|-P 4 2n|P 4ab 2ab -1ab|P 4ab 2n -1ab|-P 4c 2|-P 4c 2c|P 4n 2c -1n|P 4n 2 -1n|-P 4c 2ab|-P 4n 2n|P 4n 2n -1n|P 4n 2ab -1n|-I 4 2|-I 4 2c|I 4bw 2bw -1bw|I 4bw 2aw -1bw
P 3|P 31|P 32|R 3|-P 3|-R 3|P 3 2|P 3 2"|P 31 2 (0 0 4)|P 31 2"|P 32 2 (0 0 2)|P 32 2"|R 3 2"|P 3 -2"|P 3 -2|P 3 -2"c|P 3 -2c|R 3 -2"|R 3 -2"c|-P 3 2|-P 3 2c|-P 3 2"|-P 3 2"c|-R 3 2"|-R 3 2"c
P 6|P 61|P 65|P 62|P 64|P 6c|P -6|-P 6|-P 6c|P 6 2|P 61 2 (0 0 5)|P 65 2 (0 0 1)|P 62 2 (0 0 4)|P 64 2 (0 0 2)|P 6c 2c|P 6 -2|P 6 -2c|P 6c -2|P 6c -2c|P -6 2|P -6c 2|P -6 -2|P -6c -2c|-P 6 2|-P 6 2c|-P 6c 2|-P 6c 2c
P 2 2 3|F 2 2 3|I 2 2 3|P 2ac 2ab 3|I 2b 2c 3|-P 2 2 3|P 2 2 3 -1n|-F 2 2 3|F 2 2 3 -1d|-I 2 2 3|-P 2ac 2ab 3|-I 2b 2c 3
P 4 2 3|P 4n 2 3|F 4 2 3|F 4d 2 3|I 4 2 3|P 4acd 2ab 3|P 4bd 2ab 3|I 4bd 2c 3
P -4 2 3|F -4 2 3|I -4 2 3|P -4n 2 3|F -4c 2 3|I -4bd 2c 3
-P 4 2 3|P 4 2 3 -1n|-P 4n 2 3|P 4n 2 3 -1n|-F 4 2 3|-F 4c 2 3|F 4d 2 3 -1d|F 4d 2 3 -1cd|-I 4 2 3|-I 4bd 2c 3
"""
HALL = [h.strip() for line in HALL.strip().splitlines() for h in line.split('|')]
assert len(HALL) == 230, len(HALL)
ROT = {  # about z / x / y
    'z': {1: [[1, 0, 0], [0, 1, 0], [0, 0, 1]], 2: [[-1, 0, 0], [0, -1, 0], [0, 0, 1]], 3: [[0, -1, 0], [1, -1, 0], [0, 0, 1]], 4: [[0, -1, 0], [1, 0, 0], [0, 0, 1]], 6: [[1, -1, 0], [1, 0, 0], [0, 0, 1]]},
    'x': {2: [[1, 0, 0], [0, -1, 0], [0, 0, -1]]},
    'y': {2: [[-1, 0, 0], [0, 1, 0], [0, 0, -1]]},
}
PRIME = {'z': [[0, -1, 0], [-1, 0, 0], [0, 0, -1]], 'y': [[0, 0, -1], [0, -1, 0], [-1, 0, 0]], 'x': [[-1, 0, 0], [0, 0, -1], [0, -1, 0]]}
DPRIME = {'z': [[0, 1, 0], [1, 0, 0], [0, 0, -1]], 'y': [[0, 0, 1], [0, -1, 0], [1, 0, 0]], 'x': [[-1, 0, 0], [0, 0, 1], [0, 1, 0]]}
STAR = [[0, 0, 1], [1, 0, 0], [0, 1, 0]]
TR = {'a': (12, 0, 0), 'b': (0, 12, 0), 'c': (0, 0, 12), 'n': (12, 12, 12), 'u': (6, 0, 0), 'v': (0, 6, 0), 'w': (0, 0, 6), 'd': (6, 6, 6)}
LAT = {'P': [], 'A': [(0, 12, 12)], 'B': [(12, 0, 12)], 'C': [(12, 12, 0)], 'I': [(12, 12, 12)], 'R': [(16, 8, 8), (8, 16, 16)], 'F': [(0, 12, 12), (12, 0, 12), (12, 12, 0)]}


def generators(hall):
    m = re.match(r'^(-?)([PABCIRF])\s+(.*?)(\(.*\))?$', hall)
    inv, lat, rest, shift = m.groups()
    gens = []
    I3 = np.eye(3, dtype=int)
    for t in LAT[lat]:
        gens.append((I3, np.array(t)))
    if inv:
        gens.append((-I3, np.zeros(3, int)))
    prev, prevax = None, 'z'
    for k, tok in enumerate(rest.split()):
        x = re.match(r"^(-?)([12346])([1-5]?)([xyz]?)(['\"*]?)([abcnuvwd]*)$", tok)
        neg, n, screw, ax, mark, tr = x.groups()
        n = int(n)
        if not ax and not mark:
            if k == 0:
                ax = 'z'
            elif k == 1 and n == 2:
                if prev in (2, 4):
                    ax = 'x'
                else:
                    mark = "'"
            elif k == 2 and n == 3:
                mark = '*'
        if n == 1:
            W = np.eye(3, dtype=int)
        elif mark == '*':
            W = np.array(STAR)
        elif mark == "'":
            W = np.array(PRIME[prevax])
        elif mark == '"':
            W = np.array(DPRIME[prevax])
        else:
            W = np.array(ROT[ax or 'z'][n])
        if neg:
            W = -W
        w = np.zeros(3, int)
        for c in tr:
            w = w + np.array(TR[c])
        if screw:
            w = w + np.array([0, 0, 24 * int(screw) // n])
        gens.append((W, w % 24))
        prev = n
        if k == 0:
            prevax = ax or 'z'
    if shift:     # change of origin, in 12ths: V R V^-1
        v = np.array([int(x) for x in shift.strip('()').split()]) * 2
        gens = [(W, (w + v - W @ v) % 24) for W, w in gens]
    return gens


def closure(gens):
    e = ((1, 0, 0, 0, 1, 0, 0, 0, 1), (0, 0, 0))
    seen, todo = {e}, [e]
    while todo:
        A, a = todo.pop()
        A = np.array(A).reshape(3, 3)
        for W, w in gens:
            B, b = A @ W, (A @ w + np.array(a)) % 24
            t = (tuple(int(x) for x in B.ravel()), tuple(int(x) for x in b))
            if t not in seen:
                seen.add(t)
                todo.append(t)
    return seen


if __name__ == '__main__':
    out = ['------------------------------- MODULE SgTable -------------------------------',
           '(* Written by tools/hall.py from the Hall symbols of the space groups: the   *)',
           '(* generators of each group, <<W11, W12, .., W33, w1, w2, w3>>, w in 24ths.   *)', 'EXTENDS Integers', 'SgGen == <<']
    rows = []
    for h in HALL:
        g = ['<<%s>>' % ', '.join(str(int(x)) for x in list(W.ravel()) + list(w)) for W, w in generators(h)]
        rows.append('  <<%s>>' % ', '.join(g))
    out.append(',\n'.join(rows))
    out += ['>>', '=' * 78]
    open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs', 'SgTable.tla'), 'w').write('\n'.join(out) + '\n')
