"""What each check runs.  quick/thorough: (events, shards, seeds) per build."""


import cases


def rec(bin, gen, module, quick, thorough):
    return {"bin": bin, "gen": gen, "module": module, "quick": quick, "thorough": thorough}


VEC = ((10000, 8, 1), (25000, 16, 4))
CODE = ((5000, 8, 1), (15000, 16, 4))
RANK = ((2500, 8, 1), (6000, 16, 4))


def enum(bin, gen, module, source, cut):
    """Histories enumerated by TLC from `source` and replayed into the code."""
    return {"bin": bin, "gen": gen, "module": module, "from": source, "cut": cut}


def gvec(p):
    return enum("vec", p, "VecTrace", "GenVec", cases.vec)


def gcode(p):
    return enum("code", p, "CodeTrace", "GenCode", cases.code)


def grank(p):
    return enum("rank", p, "RankTrace", "GenRank", getattr(cases, "rank_" + p))


def far(p, kinds):
    """Very long sequences: d in memory (release build only), s sparse; m: of middle length."""
    return [dict(enum("far", p + k, "FarTrace", "GenFar", cases.groups), **({"profiles": ("release",)} if k == "d" else {})) for k in kinds]


def long_(p, big):
    """Long streams: up to 2^20 bits of every kind, or past 2^32 (release build only)."""
    return dict(enum("long", p + ("b" if big else "m"), "LongTrace", "GenLong", cases.groups), **({"profiles": ("release",)} if big else {}))


def vec(p, q=VEC[0], t=VEC[1]):
    return rec("vec", p, "VecTrace", q, t)


def rank(p, q=RANK[0], t=RANK[1]):
    return rec("rank", p, "RankTrace", q, t)


def model(module, checks, cfg=None, thorough=False, **kw):
    return dict(kw, module=module, cfg=cfg or module, thorough=thorough, checks=checks)


VECIMPL = [model("VecImpl", "the packed-block vector with an arbitrary unused tail refines the sequence of values")]
RANKMC = [model("RankMC", "counting by segments is counting; the two-level directories and the binary search refine rank and select", "RankMCquick"),
          model("RankMC", "as above, longer vectors and patterns", "RankMC", thorough=True)]
CODEMC = [model("CodeMC", "every code is total, prefix free, and its one codeword for a value is the textbook one", "CodeMCquick"),
          model("CodeMC", "as above, longer streams", "CodeMC", thorough=True)]
LONGMC = [model("LongMC", "computing with runs and windows is computing with bits", "LongMCquick"),
          model("LongMC", "as above, longer streams", "LongMC", thorough=True)]
WIDEMC = [model("WideMC", "the multiword numbers the specification computes with obey the laws of arithmetic")]
LANEMC = [model("LaneMC", "lane-parallel comparison formulas agree with comparing lane by lane"),
          model("LaneMC", "as above, wider lanes", "LaneMC4", thorough=True)]
BUFMC = [model("BufMC", "a two-stack tape and the cursor on a sequence are the same thing", "BufMCquick"),
         model("BufMC", "as above, longer", "BufMC", thorough=True)]
IOMC = [model("IoMC", "the transfer loop, against every partial, interrupted, ending or failing stream, refines one atomic step"),
        model("IoMC", "as above, longer histories", "IoMC5", thorough=True)]
CAPMC = [model("CapMC", "the rules about single steps add up to the promises: reserved room is room"), model("CapMC", "as above, one-bit elements", "CapMC1")]
SPACEMC = [model("SpaceMC", "heap size of a term is what its life left allocated; directories are small shares")]
FUNMC = [model("FunMC", "every definition picks exactly one answer; spans read back; select inverts counting", thorough=True)]

CHECKS = {
    "C01": {"models": VECIMPL, "runs": [gvec("C01"), vec("C01")] + far("C01", "md")},
    "C02": {"models": VECIMPL, "runs": [gvec("C02"), vec("C02")] + far("C02", "md")},
    "C03": {"models": VECIMPL, "runs": [enum("vec", "C03", "VecTrace", "GenEq", cases.groups), vec("C03")] + far("C03", "md")},
    "C04": {"runs": [gvec("C04"), vec("C04")] + far("C04", "mds")},
    "C05": {"runs": [gvec("C05"), vec("C05")] + far("C05", "mds")},
    "C06": {"runs": [gvec("C06"), vec("C06")] + far("C06", "md")},
    "C07": {"models": RANKMC, "runs": [grank("C07"), rank("C07")] + far("C07", "md")},
    "C08": {"models": RANKMC, "runs": [grank("C08"), rank("C08")] + far("C08", "mds")},
    "C09": {"models": BUFMC, "runs": [enum("buf", "C09", "BufTrace", "GenBuf", cases.buf), rec("buf", "C09", "BufTrace", *VEC)] + far("C09", "mds")},
    "C10": {"models": CODEMC + WIDEMC + LONGMC, "runs": [gcode("C10"), rec("code", "C10", "CodeTrace", *CODE), rec("buf", "C10", "BufTrace", (1200, 8, 1), (8000, 16, 3)), long_("C10", False), long_("C10", True)]},
    "C11": {"models": CODEMC + LONGMC, "runs": [gcode("C11"), rec("code", "C11", "CodeTrace", *CODE), rec("buf", "C11", "BufTrace", (1200, 8, 1), (8000, 16, 3)), long_("C11", False), long_("C11", True)]},
    "C12": {"runs": [gvec("C12"), vec("C12", (8000, 8, 1)), rank("C12", (1500, 8, 1))] + far("C12", "mds")},
    "C13": {"models": CAPMC, "runs": [enum("vec", "C13", "VecTrace", "GenCap", cases.groups), vec("C13")] + far("C13", "m")},
    "C14": {"models": WIDEMC + FUNMC, "runs": [enum("fun", "C14", "FunTrace", "GenFun", cases.plain), rec("fun", "C14", "FunTrace", (600, 8, 1), (2000, 16, 4))]},
    "C15": {"models": LANEMC + FUNMC, "runs": [enum("fun", "C15", "FunTrace", "GenFun", cases.plain), rec("fun", "C15", "FunTrace", (600, 8, 1), (2000, 16, 4))]},
    "C16": {"models": SPACEMC, "runs": [enum("space", "C16", "SpaceTrace", "GenSpace", cases.plain), rec("space", "C16", "SpaceTrace", (3000, 8, 1), (8000, 16, 6))]},
    "C17": {"models": RANKMC, "runs": [grank("C17"), rank("C17")] + far("C17", "mds")},
    "C18": {"models": CODEMC + BUFMC, "runs": [gcode("C18"), rec("code", "C18", "CodeTrace", *CODE),
                                    enum("buf", "C18", "BufTrace", "GenBuf", cases.buf), rec("buf", "C18", "BufTrace", (4000, 8, 1), (15000, 16, 4))] + far("C18", "mds")},
    "C19": {"models": IOMC, "runs": [enum("fun", "C19", "IoTrace", "GenIo", cases.groups), rec("fun", "C19", "IoTrace", (6000, 8, 1), (20000, 16, 4))]},
}
