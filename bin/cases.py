"""Turn the cases TLC enumerated (one JSON object per line) into the calls a
recorder performs: put the store into the state, then each operation on a
fresh copy of it."""
import json

CAP = 2147483647


def setup(c, us):
    """Bring register 1 into the state of case c."""
    k, w, eb, b = c["k"], c["w"], c["eb"], c["b"]
    base = {"r": 1, "path": [], "big": 0}
    if k == "bv":
        ops = [dict(base, op="bv_fill", a=[w, len(b), 0], us=us)]
    elif k == "iv":
        ops = [dict(base, op="iv_fill", a=[w, eb, len(b) // eb, [0] * w], us=us)]
    else:
        return [dict(base, op="st_new", a=[b], k=k, w=w, us=us, vw=us, junk=us * 77 + 5, hd=1)]
    n = (len(b) + w - 1) // w
    for i in range(n):
        v = b[i * w:(i + 1) * w]
        # what lies beyond the end must be ignored: put ones there
        ops.append(dict(base, op="set_block", a=[i, v + [1] * (w - len(v))]))
    ops[-1]["hd"] = 1
    return ops


def vec(lines, jobs):
    """Operation lists of about equal size."""
    jobs = jobs // 2 or 1
    units = []
    for l in lines:
        c = json.loads(l)
        # two types have 64 bits, and two (one of them a user's own) 32
        uses = (0, 1) if c["w"] == 64 and len(c["ops"]) < 400 else (len(units) % 2,) if c["w"] == 32 else (0,)
        for us in uses:
            chunk = []
            for o in c["ops"]:
                # an iterator lives from it_new to the next
                if len(chunk) >= 500 and ("pair" in o or not o["op"].startswith("it_") or o["op"] == "it_new"):
                    units.append((c, us, chunk))
                    chunk = []
                chunk.append(o)
            units.append((c, us, chunk))
    parts = [[] for _ in range(jobs)]
    for c, us, chunk in units:
        out = min(parts, key=len)
        out += setup(c, us)
        for o in chunk:
            seq = o.get("pair", [o])
            r = 1
            if o["m"]:
                out.append({"op": "clone", "r": 1, "a": [2], "path": [], "big": 0, "hd": 1})
                r = 2
            for p in seq:
                # read-only calls take each way in: immutable slices, mutable ones
                e = {"op": p["op"], "r": r, "a": p["a"], "path": p.get("path", []), "big": 0, "hd": p["m"]}
                if "ax" in p:
                    e["ax"] = p["ax"]
                for f in ("into", "how"):
                    if f in p:
                        e[f] = p[f]
                if e["path"]:
                    e["mu"] = len(out) % 3
                    e["split"] = len(out) % 2 if len(e["path"]) > 1 else 0
                out.append(e)
        out.append({"op": "slen", "r": 1, "a": [], "path": [], "big": 0, "hd": 1})
    return [[json.dumps(e) for e in p] for p in parts]


STREAMS = ("deque", "b8", "b64", "bools", "user")


def _share(units, jobs, weight=len):
    parts = [[] for _ in range(jobs)]
    size = [0] * jobs
    for u in units:
        k = size.index(min(size))
        parts[k] += u
        size[k] += weight(u)
    return [[json.dumps(e) for e in p] for p in parts]


def code(lines, jobs):
    units, ints = [], []
    for i, l in enumerate(lines):
        e = json.loads(l)
        if e["op"] == "chain":
            # all values on one stream, twice: in a batch, and one at a time
            enc = [{"op": "enc", "c": e["c"], "v": v, "f": -1} for v in e["vs"]]
            dec = [{"op": "dec", "c": e["c"], "f": -1}] * len(enc)
            k = STREAMS[i % 5]
            u = [{"op": "new", "k": k, "vw": i % 4}]
            for j in range(0, len(enc), 12):
                u += enc[j:j + 12] + dec[j:j + 12] + dec[:1]
            units.append(u)
        else:
            units.append([e])
            if e["op"] == "iexam":
                ints.append(e)
    for j in range(0, len(ints), 40):
        part = [dict(e, f=-1) for e in ints[j::max(1, len(ints) // 40)][:40]]
        k = STREAMS[j // 40 % 5]
        units.append([{"op": "new", "k": k, "vw": j % 4}]
                     + [dict(e, op="wint") for e in part]
                     + [{x: e[x] for x in ("t", "w", "n", "be", "f")} | {"op": "rint"} for e in part + part[:1]])
    return _share(units, jobs)


# stack number -> 0 bits, 1 also rank, 2 also select (3, 4: words, see wrap.rs)
LEVEL = {1: 1, 2: 2, 3: 0, 4: 0, 5: 2, 6: 2, 7: 1, 10: 1, 11: 0, 12: 1}
LEVEL64 = {8: 1, 9: 2, 13: 1, 14: 1}


def _rank(prop):
    def cut(lines, jobs):
        units = []
        for i, l in enumerate(lines):
            c = json.loads(l)
            for us in ((0, 1) if c["w"] in (32, 64) and c["k"] == "prim" else (i % 2,) if c["w"] == 32 else (0,)):
                lev = dict(LEVEL)
                if c["w"] == 64 and not us:
                    lev.update(LEVEL64)
                if c["k"] == "prim":
                    lev.update({20: 1, 21: 2})
                    if c["w"] == 64 and not us:
                        lev.update({22: 3, 23: 4})
                if prop == "C07":
                    base = [s for s in (1, 8, 20, 22) if s in lev]
                    rest = [s for s in lev if lev[s] and s not in base]
                elif prop == "C08":
                    base = [s for s in (2, 9, 21, 22, 23) if s in lev]
                    rest = [s for s in lev if lev[s] == 2 and s not in base]
                else:
                    base = []
                    rest = [s for s in lev if s < 20]
                take = base + [rest[(i * 7 + k) % len(rest)] for k in range(1 if base else 3)]
                u = [{"op": "vec", "k": c["k"], "w": c["w"], "us": us, "junk": i * 7919 + 3, "vw": i, "sl": c["sl"], "win": c["win"], "segs": c["segs"]}]
                for s in dict.fromkeys(take):
                    if prop == "C07":
                        q = c["rank"]
                    elif prop == "C08":
                        q = c["sel"] if lev[s] != 3 else [x for x in c["sel"] if x[0] in ("select1", "all_sel1")]
                    else:
                        q = c["bits"] if lev[s] else [x for x in c["bits"] if x[0] != "limit"]
                        if lev[s] >= 1:
                            q = q + c["rank"][1:9]
                        if lev[s] == 2:
                            q = q + c["sel"][:8]
                        q = q + [["inner", 0, 0, "", ""], ["into", 0, 0, "", ""]]
                    if (i + s) % 3 == 0:  # the rest of the questions go to a copy
                        k = (i // 3) % (len(q) // 2 + 1)
                        q = q[:k] + [["clone", 0, (i + s) // 3 % 2, "", ""]] + q[k:]
                    u.append({"op": "ask", "stack": s, "qs": q})
                units.append(u)
        return _share(units, jobs, lambda u: len(u) * (10 + u[0]["win"][1]))
    return cut


rank_C07, rank_C08, rank_C17 = _rank("C07"), _rank("C08"), _rank("C17")


def buf(lines, jobs):
    """Reading moves the position and writing changes the bits: everything
    that does either is done on a buffer brought into the state for it."""
    units = []
    for i, l in enumerate(lines):
        c = json.loads(l)
        for us in ((0, 1) if c["w"] == 64 and "ops" in c else (i % 2,) if c["w"] == 32 else (0,)):
            new = {"op": "append" if i % 2 and not (c["k"] == "bv" and not c["b"]) else "open", "a": [c["b"]], "k": c["k"], "w": c["w"], "us": us, "vw": c["vw"], "hd": 1}
            to = {"op": "seek", "a": [c["pos"]], "hd": 0}
            if "walks" in c:
                for w in c["walks"]:
                    u = [new]
                    for e in w:
                        u.append(dict(e, hd=0))
                    units.append(u[:-1] + [dict(u[-1], hd=1)])
                continue
            u = [new, to]
            for o in c["ops"]:
                e = {"op": o["op"], "a": o["a"], "hd": o["m"]}
                for x in ("ax", "t", "tw"):
                    if x in o:
                        e[x] = o[x]
                u.append(e)
                if o["m"]:
                    u += [new, to]
            units.append(u)
    return _share(units, jobs // 2 or 1)


def plain(lines, jobs):
    """Lines that are calls already, independent of one another."""
    return [lines[j::jobs] for j in range(jobs)]


def groups(lines, jobs):
    """Lines holding a list of calls each, independent of one another."""
    return _share([json.loads(l) for l in lines], jobs)
