"""Which suites and models decide which property."""
def mc(module, cfg=None, **kw):
    d = {"module": module, "cfg": cfg or module + ".cfg"}
    d.update(kw)
    return d

SUITES = {
    "conf": {"bin": "conf", "mode": "conf", "trace": "TraceConfidence", "n": {"quick": 20000, "thorough": 400000}, "mc": [mc("MCConfidence")]},
    "notation": {"bin": "conf", "mode": "notation", "trace": "TraceNotation", "n": {"quick": 20000, "thorough": 300000}, "mc": [mc("MCNotation")]},
    "silence": {"bin": "pre", "mode": "silence", "trace": "TraceSilence", "n": {"quick": 6000, "thorough": 80000}, "mc": [mc("MCSilence", cfg_thorough="MCSilence_thorough.cfg")]},
    "norm": {"bin": "pre", "mode": "norm", "trace": "TraceNormalize", "n": {"quick": 6000, "thorough": 100000}, "mc": [mc("MCNormalize", cfg_thorough="MCNormalize_thorough.cfg")], "use_cases": False},
    "mix": {"bin": "pre", "mode": "mix", "trace": "TraceMixer", "n": {"quick": 10000, "thorough": 200000}, "mc": [mc("MCMixer")]},
    "consensus": {"bin": "onset", "mode": "consensus", "trace": "TraceConsensus", "n": {"quick": 8000, "thorough": 200000}, "mc": [mc("MCConsensus", cfg_thorough="MCConsensus_thorough.cfg")]},
    "detectors": {"bin": "onset", "mode": "detectors", "trace": "TracePeaks", "n": {"quick": 8000, "thorough": 150000}, "mc": [mc("MCPeaks", cfg_thorough="MCPeaks_thorough.cfg")]},
    "hpss": {"bin": "onset", "mode": "hpss", "trace": "TraceHpss", "n": {"quick": 2000, "thorough": 30000}, "mc": [mc("MCHpss", cfg_thorough="MCHpss_thorough.cfg")]},
    "grid": {"bin": "beat", "mode": "beat", "trace": "TraceBeat", "n": {"quick": 2500, "thorough": 40000}, "mc": [mc("MCBeat", cfg_thorough="MCBeat_thorough.cfg")]},
    "segments": {"bin": "beat", "mode": "beat", "trace": "TraceBeat", "n": {"quick": 2000, "thorough": 40000}, "mc": [mc("MCSegments", cfg_thorough="MCSegments_thorough.cfg")]},
    "tempo": {"bin": "beat", "mode": "tempo", "trace": "TraceTempo", "n": {"quick": 3000, "thorough": 60000}, "mc": [mc("MCTempo")]},
    "legacy": {"bin": "period", "mode": "legacy", "trace": "TraceLegacy", "n": {"quick": 5000, "thorough": 60000}, "mc": [mc("MCLegacy", cfg_thorough="MCLegacy_thorough.cfg")]},
    "tempogram": {"bin": "tempogram", "trace": "TraceTempogram", "n": {"quick": 1500, "thorough": 20000}, "mc": [mc("MCNovelty", cfg_thorough="MCNovelty_thorough.cfg"), mc("MCTempogram"), mc("MCMel", cfg_thorough="MCMel_thorough.cfg")]},
    "key": {"bin": "key", "mode": "key", "trace": "TraceKey", "n": {"quick": 6000, "thorough": 80000}, "mc": [mc("MCKey", cfg_thorough="MCKey_thorough.cfg")]},
    "changes": {"bin": "key", "mode": "changes", "trace": "TraceKey", "n": {"quick": 5000, "thorough": 80000}, "mc": [mc("MCKeyChanges", cfg_thorough="MCKeyChanges_thorough.cfg")]},
    "chroma": {"bin": "chroma", "trace": "TraceChroma", "n": {"quick": 6000, "thorough": 100000}, "mc": [mc("MCChroma", cfg_thorough="MCChroma_thorough.cfg")]},
    "multires": {"bin": "multires", "trace": "TraceMultiRes", "n": {"quick": 2000, "thorough": 30000}, "mc": [mc("MCMultiRes", cfg_thorough="MCMultiRes_thorough.cfg", timeout=1500)]},
    "batch": {"bin": "batch", "mode": "batch", "trace": "TraceBatch", "n": {"quick": 400, "thorough": 3000},
              "mc": [mc("MCBatch", cfg_thorough="MCBatch_thorough.cfg", workers=1), mc("MCBatch", "MCBatch_history.cfg", expect="SameEveryTime"), mc("MCBatch", "MCBatch_beside.cfg", expect="SameEveryTime")]},
    "steady": {"bin": "steady", "mode": "steady", "trace": "TraceSteady", "n": {"quick": 240, "thorough": 4000}, "mc": [mc("MCSteady")]},
    "pipeline": {"bin": "pipeline", "mode": "analysis", "trace": "TracePipeline", "n": {"quick": 800, "thorough": 8000}, "mc": [mc("MCKeyRoute", cfg_thorough="MCKeyRoute_thorough.cfg"), mc("MCPipeline", cfg_thorough="MCPipeline_thorough.cfg")]},
    "escalate": {"bin": "pipeline", "mode": "escalate", "trace": "TracePipeline", "n": {"quick": 1500, "thorough": 20000}, "mc": [mc("MCKeyRoute", cfg_thorough="MCKeyRoute_thorough.cfg")]},
    "robust": {"bin": "pipeline", "mode": "robust", "trace": "TracePipeline", "n": {"quick": 3200, "thorough": 40000}, "mc": [mc("MCPipeline", cfg_thorough="MCPipeline_thorough.cfg")]},
}
PROPS = {
    "C01": {"suites": ["robust", "pipeline", "silence", "norm", "consensus", "detectors", "hpss", "grid", "tempo", "legacy", "tempogram", "key", "changes", "chroma", "multires", "notation", "mix", "conf"], "scale": {"robust": 1, "pipeline": 0.5, "*": 0.25}},
    "C02": {"suites": ["robust", "pipeline", "detectors", "grid", "tempo", "legacy", "tempogram", "key", "changes", "chroma", "multires"], "scale": {"robust": 1, "pipeline": 0.5, "*": 0.25}},
    "C03": {"suites": ["pipeline", "robust", "legacy", "tempogram", "key", "grid", "tempo", "changes", "multires"], "scale": {"grid": 0.5, "tempo": 0.5, "changes": 0.5, "multires": 0.25}},
    "C04": {"suites": ["pipeline", "robust", "legacy", "tempogram", "multires"], "scale": {"multires": 0.5}},
    "C15": {"suites": ["pipeline", "robust"]},
    "C16": {"suites": ["escalate", "pipeline"]},
    "C22": {"suites": ["pipeline", "robust"]},
    "C28": {"suites": ["multires", "escalate", "pipeline"], "scale": {"escalate": 0.5, "pipeline": 0.5}},
    "C23": {"suites": ["batch", "pipeline"], "scale": {"pipeline": 0.25}},
    "C26": {"suites": ["steady"]},
    "C29": {"suites": ["pipeline", "robust"], "scale": {"pipeline": 0.5, "robust": 0.4}},
    "C27": {"suites": ["pipeline"]},
    "C20": {"suites": ["chroma"]},
    "C18": {"suites": ["key"]},
    "C19": {"suites": ["changes"]},
    "C14": {"suites": ["tempogram", "pipeline"]},
    "C13": {"suites": ["legacy"]},
    "C05": {"suites": ["grid", "pipeline"]},
    "C06": {"suites": ["grid"]},
    "C24": {"suites": ["tempo"]},
    "C25": {"suites": ["segments"]},
    "C10": {"suites": ["consensus"]},
    "C11": {"suites": ["detectors"]},
    "C12": {"suites": ["hpss"]},
    "C07": {"suites": ["silence"]},
    "C08": {"suites": ["norm"]},
    "C09": {"suites": ["mix"]},
    "C17": {"suites": ["notation"]},
    "C21": {"suites": ["conf"]},
}
