"""Which specification decides which property, and how it is bound to the code."""


def mc(module, to=None, sub=None, deep=None, cfg=None, sim=None, broken=None, tiers="quick thorough"):
    """A model to check with MODULE.cfg; `sub` replaces constants in both tiers and `deep` in the
    thorough tier; what it emits is replayed into the code by the topic `to`. `sim`: simulate that
    many behaviours per worker (quick, thorough) instead of exploring all. `broken`: the model is
    wrong on purpose and TLC has to find that."""
    return {"module": module, "cfg": cfg or module + ".cfg", "to": to, "sub": sub or {}, "deep": deep or {},
            "sim": sim, "broken": broken, "tiers": tiers.split()}


def evo(**sub):
    """Runs with two workers in all interleavings, for the given constants."""
    return mc("MCEvolution", sub=sub)


def deep(**sub):
    return dict(mc("MCEvolution", sub=sub), tiers=["thorough"])


LIVE = mc("MCEvolution", cfg="LiveEvolution.cfg", tiers="thorough")
SIM = mc("MCEvolution", "runs", cfg="SimEvolution.cfg", sim=(60, 1200))


def xo(to, ops):
    o = "{" + ", ".join('"%s"' % x for x in ops.split()) + "}"
    return [mc("MCCrossover", to, sub={"Ops": o}, deep={"MaxN": 6})]


POP = [mc("MCPopulation", "pop", deep={"MaxGen": 2})]
TOPICS = {
    "pop": {"module": "PopTrace", "need": ["new", "rep", "take", "vec", "empty", "crowd", "ages"]},
    "stats": {"module": "StatsTrace", "need": ["rec", "snap", "collect", "text", "look", "set", "conv", "bulk", "many"]},
    "lerp": {"module": "LerpTrace", "need": ["usize", "float", "sweep"]},
    "order": {"module": "OrderTrace", "need": ["cmp", "minmax", "push", "pop", "change", "end"]},
    "xo_range": {"module": "CrossTrace", "need": ["ox", "pmx", "spx", "bits"]},
    "xo_cx": {"module": "CrossTrace", "need": ["cx", "cxl"]},
    "xo_nb": {"module": "CrossTrace", "need": ["erx", "scx"]},
    "xo_gpx": {"module": "CrossTrace", "need": ["gpx", "cn", "cp", "apart"]},
    "xo_all": {"module": "CrossTrace", "need": ["ox", "pmx", "cx", "erx", "scx", "gpx", "apart", "cxl"]},
    "strat": {"module": "CrossTrace", "need": ["reach", "st", "len"]},
    "mutate": {"module": "MutTrace", "need": ["mut"]},
    "sampling": {"module": "MutTrace", "need": ["pair", "range", "reach", "touch", "many", "wide", "orders", "moved", "refuse"]},
    "sel_any": {"module": "SelTrace", "need": ["sel", "mem", "edge"]},
    "sel_rank": {"module": "SelTrace", "need": ["bulk", "cnt"]},
    "sel_fit": {"module": "SelTrace", "need": ["bulk", "cnt", "mono", "temp"]},
    "sel_dis": {"module": "SelTrace", "need": ["dis", "weak", "dfreq"]},
    "runs": {"module": "EvoTrace", "need": ["begin", "start", "init", "cb", "hook", "prep", "elites", "gen", "rep", "turn",
                                            "endi", "endp", "aborted", "panic", "long", "single"]},
    "steps": {"module": "EvoTrace", "need": ["quota", "brood", "intake"]},
    "engine": {"module": "EngineTrace", "need": ["begin", "ext", "conf", "init", "panic", "cb", "prep", "elites", "gen", "rep", "whole", "endi", "endp", "pick", "rule"]},
    "twins": {"module": "EvoTrace", "need": ["twin"]},
    "breed": {"module": "ModelTrace", "need": ["breed", "freq"]},
    "extend": {"module": "ModelTrace", "need": ["ext", "many"]},
    "adapt": {"module": "AdaptTrace", "need": ["conf", "gen", "crowd"]},
    "params": {"module": "ParamTrace", "need": ["validate", "configure", "run", "make", "new", "set"]},
    "defaults": {"module": "DefTrace", "need": ["par", "size", "rp", "start", "turn"]},
    "streams": {"module": "StreamTrace", "need": ["run", "new", "take", "draw", "give", "end", "long", "twin"]},
    "repeats": {"module": "RepeatTrace", "need": ["seed", "call"]},
    "onemax": {"module": "OneMaxTrace", "need": ["rand", "both", "apart", "eval", "big", "cross", "mut", "reach", "far", "gen", "end"]},
}
TWINS = [mc("MCTwins", "twins")] + [
    mc("MCTwins", sub={"Forgets": '{"%s"}' % f, "Emit": "FALSE"}, broken="Alike", tiers="thorough")
    for f in "size elite cr mr rg int ref sel temp".split()]
PLAN = {
    "C01": {"mc": POP, "topics": ["pop"]},
    "C02": {"mc": POP, "topics": ["pop"]},
    "C03": {"mc": POP, "topics": ["pop"]},
    "C04": {"mc": [evo(Modes='{"pop", "ind", "rand"}', Elites0="{0}", MaxGens=2, Algs='{"ga"}', MaxIn=1),
                   deep(Modes='{"pop", "ind"}', MaxGens=2, Sizes="{2}", MutRates="{0, 1000}"), LIVE, SIM], "topics": ["runs"]},
    "C05": {"mc": [evo(HookActs="{0, 1, 2}", Elites0="{0}", MaxIn=1, MaxGens=2, Algs='{"ga"}'),
                   deep(HookActs="{0, 1, 2}", MaxGens=2, Elites0="{0}"), SIM], "topics": ["runs", "breed"]},
    "C06": {"mc": [evo(Modes='{"ind", "rand"}', Elites0="{0}", MaxGens=1, Ovrs="{1}"),
                   deep(Modes='{"ind", "rand"}', MaxGens=2, Ovrs="{1}", Algs='{"ga"}'), SIM], "topics": ["runs"]},
    "C07": {"mc": [evo(), deep(Sizes="{3}", Elites0="{1, 2}", MaxIn=3), SIM], "topics": ["runs", "steps"]},
    "C08": {"mc": [evo(), deep(Sizes="{3}", Elites0="{0, 1, 2}", Workers=3, Algs='{"ga"}'), LIVE, SIM], "topics": ["runs", "steps"]},
    "C09": {"mc": [mc("MCBreed", "breed"), deep(Ovrs="{0, 1}", MutRates="{0, 1000}"), SIM], "topics": ["breed", "runs"]},
    "C10": {"mc": [mc("MCBreed", "breed"), deep(CrossRates="{0, 500, 1000}", MutRates="{0, 500}", Algs='{"ga"}'), SIM], "topics": ["breed", "runs", "steps"]},
    "C11": {"mc": [evo(), deep(NGenes=5, FitOf="FitB", BadOf="BadB", Sizes="{2}", Elites0="{0}", Algs='{"ga"}'), SIM], "topics": ["runs", "steps"]},
    "C12": {"mc": [mc("MCExtend", "extend", deep={"MaxNew": 4, "NGenes": 3}), evo(Modes='{"ind", "rand"}', MaxGens=0, Sizes="{1, 2, 3}")], "topics": ["extend", "runs"]},
    "C13": {"mc": [mc("MCAdaptive", "adapt", deep={"MaxGen": 4}), evo(Algs='{"aga"}', MaxGens=2, Elites0="{0}", MaxIn=1)], "topics": ["adapt", "runs"]},
    "C14": {"mc": [mc("MCParams", "params", deep={"MaxSets": 2, "Odd": 3})], "topics": ["params"]},
    "C15": {"mc": TWINS, "topics": ["twins", "runs"]},
    "C16": {"mc": [mc("MCSelection", deep={"MaxN": 8, "MaxK": 6})], "topics": ["sel_any"]},
    "C17": {"mc": [mc("MCSelection", deep={"MaxN": 8, "MaxK": 6})], "topics": ["sel_rank"]},
    "C18": {"mc": [mc("MCSelection", deep={"MaxN": 8, "MaxK": 6})], "topics": ["sel_fit"]},
    "C19": {"mc": [mc("MCSelection", "sel_dis", deep={"MaxTries": 5})], "topics": ["sel_dis"]},
    "C20": {"mc": xo("xo_all", "ox pmx cx erx scx gpx"), "topics": ["xo_all"]},
    "C21": {"mc": xo("xo_range", "ox pmx spx"), "topics": ["xo_range"]},
    "C22": {"mc": xo("xo_cx", "cx"), "topics": ["xo_cx"]},
    "C23": {"mc": xo("xo_nb", "erx scx"), "topics": ["xo_nb"]},
    "C24": {"mc": xo("xo_gpx", "gpx"), "topics": ["xo_gpx"]},
    "C25": {"mc": xo(None, "ox pmx spx cx erx scx gpx"), "topics": ["strat"]},
    "C26": {"mc": [mc("MCMutation", "mutate", deep={"MaxSteps": 2})], "topics": ["mutate"]},
    "C27": {"mc": [mc("MCSampling", deep={"MaxN": 12})], "topics": ["sampling"]},
    "C28": {"mc": [mc("MCStats", "stats", deep={"MaxOps": 6})], "topics": ["stats"]},
    "C30": {"mc": [mc("MCOneMax", "onemax", deep={"MaxSteps": 3})], "topics": ["onemax"]},
    "C31": {"mc": [mc("MCEngine", "engine", sub={"Firsts": "{3}"}, deep={"Firsts": "{1, 3}", "EliteActs": "{0, 1, 2, 3}", "RepActs": "{0, 1, 2, 3}"}),
                   mc("MCEngine", sub={"Lapse": '{"clear"}', "Emit": "FALSE"}, broken="SizeRule", tiers="thorough")], "topics": ["engine"]},
    "C32": {"mc": [mc("MCInterpolation", "lerp", deep={"MaxD": 60, "Dens": "{1, 2, 3, 8, 10, 16, 100, 128, 1000}"})], "topics": ["lerp"]},
    "C33": {"mc": [mc("MCDefaults", "defaults", deep={"MaxSets": 2})], "topics": ["defaults"]},
    "C34": {"mc": [mc("MCStreams", "streams", deep={"MaxW": 3, "MaxGens": 2})] + [
        mc("MCStreams", sub={"PerGeneration": "TRUE", "Emit": "FALSE"}, broken=b, tiers="thorough") for b in ("Legal",)], "topics": ["streams"]},
    "C35": {"mc": [mc("MCRepeats", "repeats"),
                   mc("MCRepeats", sub={"MaxLen": 5, "Clients": "{1, 2, 3}", "Emit": "FALSE"}, tiers="thorough"),
                   mc("MCRepeats", sub={"Hidden": "TRUE", "Emit": "FALSE"}, broken="Legal", tiers="thorough")], "topics": ["repeats"]},
    "C29": {"mc": [mc("MCOrder", "order", deep={"MaxOps": 6})], "topics": ["order"]},
}
