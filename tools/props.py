"""What each check runs. plan(id, tier, seed) -> {jobs, mc, gen}."""

COMMON_ASSUMPTIONS = [
    "the C++ is compiled against vsycl (harness/vsycl): a host SYCL "
    "stand-in whose seeded scheduler reorders and defers work within what "
    "SYCL allows; defects of a vendor SYCL runtime are out of reach",
    "TLC and the TLA+ community modules evaluate the specifications correctly",
]

# schedules of the SYCL stand-in: (item order, % deferred commands)
SCHED = [(2, 50), (1, 90), (0, 0), (2, 20), (1, 40), (2, 80)]


def mix(*a):
    h = 0x9E3779B97F4A7C15
    for x in a:
        h ^= (x + 0x9E3779B97F4A7C15 + (h << 6) + (h >> 2)) & (2**64 - 1)
        h = (h * 0xBF58476D1CE4E5B9) & (2**64 - 1)
        h ^= h >> 29
    return h


def sched(i, threads=1, cpu=1):
    o, f = SCHED[i % len(SCHED)]
    e = {"VSYCL_ORDER": o, "VSYCL_DEFER": f, "VSYCL_SEED": i + 1,
         "VSYCL_POISON": (0x7F, 0xA5, 0x7F, 0x03)[i % 4]}
    if threads > 1:
        e["VSYCL_THREADS"] = threads
    if not cpu:
        e["VSYCL_CPU"] = 0
    return e


def runs(driver, spec, cfg, seed, ranks, args=None, reps=1, salt=0, **kw):
    out = []
    for rep in range(reps):
        for k, n in enumerate(ranks):
            i = rep * len(ranks) + k
            a = {"seed": mix(seed, salt, i, n) % 10**9}
            a.update(args or {})
            j = {"driver": driver, "spec": spec, "cfg": cfg, "n": n, "args": a,
                 "env": sched(mix(seed, salt, i) % 997,
                              cpu=0 if i % 3 == 2 else 1)}
            j["env"].update(kw.pop("env", {}) if False else {})
            j.update({x: y for x, y in kw.items() if x != "env"})
            j["env"].update(kw.get("env", {}))
            out.append(j)
    return out


def store(seed, tier, mode, focus):
    t = tier == "thorough"
    spec, cfg = "StoreTrace", "StoreTrace_%s.cfg" % focus
    ranks = [1, 2, 3, 4, 2, 4, 3] if mode == "moves" else [1, 2, 1, 3, 1, 4]
    js = runs("store", spec, cfg, seed, ranks,
              {"mode": mode, "traces": 40 if t else 5, "ops": 30 if t else 16},
              reps=6 if t else 1, salt=11)
    js += runs("store", spec, cfg, seed, [5, 6], {"mode": mode, "traces": 3},
               salt=12)
    return js


def loops(tier, seed):
    t = tier == "thorough"
    sp = ("LoopTrace", "LoopTrace.cfg")
    js = runs("loop", *sp, seed, [1, 1, 2, 3, 1, 4],
              {"traces": 40 if t else 6, "ops": 30 if t else 12},
              reps=5 if t else 1, salt=41)
    js += runs("loop", *sp, seed, [1, 1], {"traces": 2, "ops": 6, "big": 600},
               reps=4 if t else 1, salt=42)
    n = 8 if t else 3
    for i in range(n):
        js += runs("loop", *sp, seed, [1], {"part": i, "parts": n}, salt=43 + i,
                   gen="blocks")
    return {
        "jobs": js,
        "mc": [{"spec": "LoopBlocks", "min_states": 10000,
                "cfg": "LoopBlocks_big.cfg" if t else "LoopBlocks.cfg",
                "timeout": 3000 if t else 300}],
        "gen": [{"name": "blocks", "spec": "LoopBlocks",
                 "cfg": "LoopBlocks_gen.cfg",
                 "extra": ("-seed", str(seed))}],
    }


def arrays(tier, seed):
    t = tier == "thorough"
    sp = ("ArraysTrace", "ArraysTrace.cfg")
    js = runs("arrays", *sp, seed, [1, 2, 3, 1, 4, 2],
              {"traces": 30 if t else 6, "ops": 40 if t else 25},
              reps=5 if t else 1, salt=51)
    # work items on real threads: lost updates
    js += runs("arrays", *sp, seed, [1, 1], {"traces": 3, "ops": 14, "big": 300},
               reps=4 if t else 1, salt=52, env={"VSYCL_THREADS": 4})
    return {"jobs": js}


def subs(tier, seed, salt, focus):
    t = tier == "thorough"
    sp = ("SubGroupsTrace", "SubGroupsTrace.cfg")
    js = runs("subs", *sp, seed, [1, 1, 2, 1, 3, 2, 4],
              {"traces": 40 if t else 14, "ops": 90 if t else 60,
               "focus": focus}, reps=5 if t else 1, salt=salt)
    if focus == "selectors":
        return {"jobs": js}
    for sc in ("static_partition", "unstatic_parent"):
        js += runs("subs", *sp, seed, [1], {"traces": 4, "scenario": sc},
                   salt=65)
    return {"jobs": js}


def simple(driver, spec, tier, seed, salt, ranks, quick, thorough, reps=5):
    """One driver against one trace specification."""
    t = tier == "thorough"
    return {"jobs": runs(driver, spec, spec + ".cfg", seed, ranks,
                         thorough if t else quick, reps=reps if t else 1,
                         salt=salt)}


def models(tier, *specs):
    big = "_big" if tier == "thorough" else ""
    return [{"spec": n, "cfg": n + big + ".cfg", "min_states": k,
             "timeout": 1200 if big else 300} for n, k in specs]


def mesh(tier, seed):
    t = tier == "thorough"
    sp = ("MeshTrace", "MeshTrace.cfg")
    js = runs("mesh", *sp, seed, [1, 2, 3, 4, 2, 5],
              {"traces": 40 if t else 8, "ops": 20 if t else 12},
              reps=5 if t else 1, salt=101)
    js += runs("mesh", *sp, seed, [3], salt=102, gen="claims")
    return {
        "jobs": js,
        "mc": [{"spec": "MeshClaim", "min_states": 5000,
                "cfg": "MeshClaim_big.cfg" if t else "MeshClaim.cfg",
                "timeout": 1200 if t else 300}],
        "gen": [{"name": "claims", "spec": "MeshClaim",
                 "cfg": "MeshClaim_gen.cfg",
                 "extra": ("-simulate", "num=%d" % (2000 if t else 150),
                           "-depth", "40", "-seed", str(seed))}],
    }


def surface(tier, seed):
    t = tier == "thorough"
    sp = ("SurfaceTrace", "SurfaceTrace.cfg")
    js = runs("surface", *sp, seed, [1, 2, 3, 4, 2, 5],
              {"traces": 40 if t else 10, "ops": 14 if t else 10},
              reps=5 if t else 1, salt=151)
    for i, n in enumerate([2, 3]):
        js += runs("surface", *sp, seed, [n], {"part": i, "parts": 2},
                   salt=152 + i, gen="caches")
    return {
        "jobs": js, "mc": models(tier, ("SurfaceCache", 1000)),
        "gen": [{"name": "caches", "spec": "SurfaceCache",
                 "cfg": "SurfaceCache_gen.cfg"}],
    }


def ephemeral(tier, seed):
    t = tier == "thorough"
    sp = ("EphemeralTrace", "EphemeralTrace.cfg")
    js = runs("eph", *sp, seed, [1, 2, 1, 3, 4, 1],
              {"traces": 30 if t else 8, "ops": 60 if t else 30},
              reps=5 if t else 1, salt=181)
    for i, n in enumerate([1, 2, 1]):
        js += runs("eph", *sp, seed, [n], {"part": i, "parts": 3},
                   salt=182 + i, gen="vectors")
    return {
        "jobs": js, "mc": models(tier, ("EphemeralCache", 1000)),
        "gen": [{"name": "vectors", "spec": "EphemeralCache",
                 "cfg": "EphemeralCache_gen.cfg"}],
    }


def rng(tier, seed):
    t = tier == "thorough"
    sp = ("RngTrace", "RngTrace.cfg")
    js = runs("rng", *sp, seed, [1, 2, 1, 3, 4, 1],
              {"traces": 40 if t else 10, "ops": 40 if t else 24},
              reps=5 if t else 1, salt=191)
    for i in range(2):
        js += runs("rng", *sp, seed, [1], {"part": i, "parts": 2},
                   salt=192 + i, gen="pools")
    return {
        "jobs": js, "mc": models(tier, ("RngPool", 1000)),
        "gen": [{"name": "pools", "spec": "RngPool",
                 "cfg": "RngPool_gen.cfg"}],
    }


def comm(tier, seed):
    t = tier == "thorough"
    js = runs("comm", "CommTrace", "CommTrace.cfg", seed, [1, 2, 3, 4, 5, 6, 7],
              {"traces": 30 if t else 6, "ops": 60 if t else 30},
              reps=5 if t else 1, salt=201)
    # gathering of serialised objects per cell
    js += runs("mesh", "MeshTrace", "MeshTrace.cfg", seed, [2, 3, 4],
               {"traces": 20 if t else 4, "ops": 12},
               reps=3 if t else 1, salt=202)
    return {"jobs": js,
            "mc": models(tier, ("SetUnion", 1000), ("EdgesCounter", 1500))
            + [{"spec": "SetUnion", "cfg": "SetUnion_sync.cfg",
                "min_states": 800, "timeout": 300}]}


def cells(tier, seed):
    t = tier == "thorough"
    sp = ("CellsTrace", "CellsTrace.cfg")
    js = runs("cells", *sp, seed, [1, 2, 1, 3, 1],
              {"traces": 40 if t else 8, "ops": 60 if t else 40},
              reps=5 if t else 1, salt=211)
    for i in range(2):
        js += runs("cells", *sp, seed, [1], {"part": i, "parts": 2},
                   salt=212 + i, gen="blocks")
    return {"jobs": js, "mc": models(tier, ("ScanBlocks", 400)),
            "gen": [{"name": "blocks", "spec": "ScanBlocks",
                     "cfg": "ScanBlocks_gen.cfg"}]}


def lookup(tier, seed):
    t = tier == "thorough"
    sp = ("LookupTrace", "LookupTrace.cfg")
    js = runs("lookup", *sp, seed, [1, 2, 1, 3],
              {"traces": 60 if t else 8, "ops": 40 if t else 24},
              reps=4 if t else 1, salt=171)
    for i in range(4):
        js += runs("lookup", *sp, seed, [1], {"part": i, "parts": 4},
                   salt=172 + i, gen="orders")
    return {
        "jobs": js, "mc": models(tier, ("LookupTree", 1000)),
        "gen": [{"name": "orders", "spec": "LookupTree",
                 "cfg": "LookupTree_gen.cfg"}],
    }


def plan(pid, tier, seed):
    return PLANS[pid](tier, seed)


PLANS = {
    "C01": lambda t, s: {"jobs": store(s, t, "moves", "conserve")},
    "C02": lambda t, s: {"jobs": store(s, t, "moves", "place")},
    "C04": loops,
    "C05": arrays,
    "C06": lambda t, s: subs(t, s, 61, "currency"),
    "C07": lambda t, s: subs(t, s, 71, "selectors"),
    "C08": lambda t, s: simple(
        "creates", "CreatesTrace", t, s, 81, [1, 1, 2, 1, 3, 2],
        {"traces": 8, "ops": 14}, {"traces": 30, "ops": 30}),
    "C10": mesh,
    "C11": lambda t, s: simple(
        "cart", "CartMeshTrace", t, s, 111, [1, 2, 3, 4, 6, 5],
        {"traces": 12, "ops": 5}, {"traces": 60, "ops": 8}),
    "C12": lambda t, s: simple(
        "pairs", "PairLoopTrace", t, s, 121, [1, 2, 1, 3, 1, 4],
        {"traces": 10, "ops": 24}, {"traces": 40, "ops": 40}),
    "C13": lambda t, s: dict(simple(
        "dsmc", "DsmcTrace", t, s, 131, [1, 2, 1, 3, 1, 2],
        {"traces": 10, "ops": 24}, {"traces": 40, "ops": 40}),
        mc=models(t, ("AllToAll", 40), ("NtcWaves", 100000))),
    "C14": lambda t, s: simple(
        "traj", "TrajTrace", t, s, 141, [1, 2, 1, 3, 1, 4],
        {"traces": 24, "ops": 6}, {"traces": 60, "ops": 8}),
    "C15": surface,
    "C17": lookup,
    "C18": ephemeral,
    "C19": rng,
    "C20": comm,
    "C21": cells,
    "C22": lambda t, s: {"jobs": runs(
        "init", "StoreTrace", "StoreTrace_local.cfg", s,
        [1, 2, 3, 4, 5, 6, 2, 3],
        {"traces": 25 if t == "thorough" else 4, "ops": 6},
        reps=5 if t == "thorough" else 1, salt=221)},
    "C23": lambda t, s: simple(
        "overlay", "OverlayTrace", t, s, 231, [1, 2, 3, 1, 4, 2],
        {"traces": 10, "ops": 50}, {"traces": 40, "ops": 80}),
    "C16": lambda t, s: simple(
        "h5", "H5PartTrace", t, s, 161, [1, 2, 3, 4, 2, 1],
        {"traces": 6, "ops": 16}, {"traces": 20, "ops": 30}),
    "C09": lambda t, s: simple(
        "readback", "ReadbackTrace", t, s, 91, [1, 1, 2, 1, 3, 2, 4],
        {"traces": 8, "ops": 24}, {"traces": 30, "ops": 40}),
    "C03": lambda t, s: {"jobs": store(s, t, "local", "local")},
}
