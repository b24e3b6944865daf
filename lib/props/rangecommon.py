# Characters of one to four bytes and of every class of module Graphemes.
ODD = [0, 8, 9, 11, 12, 27, 28, 29, 30, 31, 32, 97, 98, 127, 133, 160, 5760, 8233, 12288, 55295, 57344, 65279, 65533,
       65534, 65535, 1114111, 169, 173, 233, 768, 769, 8205, 8204, 8203, 8232, 8400, 65039, 65279,
       127462, 127463, 127487, 127995, 128104, 128105, 128103, 128512, 10084, 1536, 1541, 2307, 3635,
       4352, 4449, 4520, 44032, 44033, 8364, 26085, 65536]
LINES = [13, 10]


def text(rng, n, lines=0.25, plain=0.3):
    out = []
    mood = rng.choice([None, None, ODD, [11, 12, 133, 8232, 8233, 28, 97, 0], [10, 13, 11, 12, 97], [127462, 127463, 97], [128104, 8205, 127995, 769, 97], [4352, 4449, 4520, 44032, 44033],
                       [97, 233, 8364, 128512]])
    for _ in range(n):
        if rng.random() < lines:
            out.append(rng.choice(LINES))
        elif mood:
            out.append(rng.choice(mood))
        else:
            out.append(rng.choice([97, 98, 32]) if rng.random() < plain else rng.choice(ODD))
    return out


def history(rng, length, ends=False, sizes=(0, 1, 2, 4, 8, 20)):
    ops, rs = [], []          # rs: [text, a, b]
    texts = []
    for _ in range(length):
        r = rng.random()
        if not rs or r < 0.06:
            if texts and rng.random() < 0.3:
                t = list(texts[rng.randrange(len(texts))])   # another buffer with the same text
            else:
                t = text(rng, rng.choice(sizes), lines=rng.choice([0, 0.2, 0.6]))
            texts.append(t)
            rs.append([len(texts) - 1, 0, len(t)])
            ops.append({"op": "new", "text": t})
            continue
        i = len(rs) - 1 if rng.random() < 0.5 else rng.randrange(len(rs))
        x, a, b = rs[i]
        if ends and r < 0.4:
            ops.append({"op": "ends", "r": i + 1})
        elif r < 0.2:
            ops.append({"op": "read", "r": i + 1})
            if b > a:
                rs.append([x, a + 1, b])
        elif r < 0.35:
            ops.append({"op": "readm", "r": i + 1})
            if b > a:
                rs[i][1] += 1
        elif r < 0.65:
            n = max(0, rng.choice([0, 1, 2, b - a, b - a - 1, b - a + 1, rng.randint(0, 6),
                                   rng.randint(0, b - a), b - a + rng.choice([2, 10, 60, 300, 70000])]))
            m = rng.random() < 0.5
            ops.append({"op": "advm" if m else "adv", "r": i + 1, "n": n})
            if n <= b - a:
                if m:
                    rs[i][1] += n
                else:
                    rs.append([x, a + n, b])
        elif r < 0.72:
            ops.append({"op": "clone", "r": i + 1})
            rs.append(list(rs[i]))
        else:
            ok = [q for q in range(len(rs)) if rs[q][0] == x and rs[q][2] == b and rs[q][1] >= a]
            if rng.random() < 0.7:
                q = rng.choice(ok)
            else:
                # One that nearly is a suffix.
                same = [q for q in range(len(rs)) if texts[rs[q][0]] == texts[x] and q not in ok]
                q = rng.choice(same or list(range(len(rs))))
            ops.append({"op": "cut", "r": i + 1, "q": q + 1})
            if q in ok:
                rs.append([x, a, rs[q][1]])
    return {"m": "buffer", "ops": ops}


def far(rng, op, k):
    """Long texts: one short text again and again, with more than 2^16 bytes, lines or columns."""
    out = []
    for i in range(k):
        shape = i % 5
        if shape == 0:
            unit = [97, rng.choice([10, 13])]                      # many lines
        elif shape == 1:
            unit = [97] + [rng.choice([98, 233, 8364, 128512]) for _ in range(rng.randint(1, 30))]   # one line
        elif shape == 2:
            unit = [97] * rng.randint(200, 400) + [13, 10]         # long lines
        elif shape == 3:
            unit = [97] + [rng.choice([97, 769, 8205, 10, 13]) for _ in range(rng.randint(2, 12))] + [10]
        else:
            unit = [97] + text(rng, rng.randint(3, 20)) + [rng.choice([97, 10])]
        chars = rng.choice([300, 5000, 70000, 140000])
        times = max(1, chars // len(unit))
        n = times * len(unit)
        at = {0, n, n - 1, n // 2, min(n, 255), min(n, 256), min(n, 65535), min(n, 65536), min(n, 65537)}
        at |= {rng.randint(0, n) for _ in range(4)}
        at |= {(j * len(unit)) for j in [times // 2, times - 1]}
        out.append({"m": "buffer", "ops": [{"op": op, "unit": unit, "times": times, "at": sorted(at)}]})
    return out
