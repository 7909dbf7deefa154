"""Which specifications, bounds and conformance runs decide each property."""

PLAN = {}


def graph_consts(v, nodes, maxch, sysin, sysout, conns):
    return dict(Nodes="<-" + nodes, InCh="<-In" + v, OutCh="<-Out" + v, MaxCh=maxch, SysIn=sysin, SysOut=sysout,
                MaxConns=conns, Partial="TRUE", Readd="TRUE")


GRAPH_INV = ["TypeOK", "Acyclic", "Silence", "InputIsolation", "OnlyAncestorsHeard"]
IN = {"A": [2, 1, 2], "B": [0, 2, 3], "C": [2, 2, 1, 2]}
OUT = {"A": [2, 2, 1], "B": [2, 3, 1], "C": [2, 1, 2, 2]}


def graph_params(v, maxch, sysin, sysout):
    return {"in": IN[v], "out": OUT[v], "maxch": maxch, "sysin": sysin, "sysout": sysout}


PLAN["C01"] = dict(jobs=[
    dict(name="graph-A2", module="Graph", kind="graph", constants=graph_consts("A", "Nodes3", 2, 2, 2, 2),
         params=graph_params("A", 2, 2, 2), invariants=GRAPH_INV),
    dict(name="graph-B2", module="Graph", kind="graph", constants=graph_consts("B", "Nodes3", 3, 1, 4, 2),
         params=graph_params("B", 3, 1, 4), invariants=GRAPH_INV, tiers=("thorough",)),
    dict(name="graph-A3", module="Graph", kind="graph", constants=graph_consts("A", "Nodes3", 2, 2, 2, 3),
         params=graph_params("A", 2, 2, 2), invariants=GRAPH_INV, tiers=("thorough",), heap="10g"),
    dict(name="graph-C-sim", module="Graph", kind="graph", constants=graph_consts("C", "Nodes4", 2, 3, 3, 6),
         params=graph_params("C", 2, 3, 3), invariants=["TypeOK", "Acyclic", "InputIsolation"], simulate=8000, depth=20),
    dict(name="graph-B-sim", module="Graph", kind="graph", constants=graph_consts("B", "Nodes3", 3, 1, 4, 6),
         params=graph_params("B", 3, 1, 4), invariants=["TypeOK", "Acyclic", "InputIsolation"], simulate=4000, depth=20),
    dict(name="graph-C-sim-long", module="Graph", kind="graph", constants=graph_consts("C", "Nodes4", 2, 3, 3, 8),
         params=graph_params("C", 2, 3, 3), invariants=["TypeOK", "Acyclic", "InputIsolation"], simulate=100000, depth=40,
         tiers=("thorough",)),
])



def graph_big(nodes, maxch, sysin, sysout, conns):
    return {**graph_consts("Big%d" % nodes, "Nodes%d" % nodes, maxch, sysin, sysout, conns), "SystemOut": "<-FastOut", "W": "<-SmallW"}


def graph_big_params(nodes, maxch, sysin, sysout):
    n = range(1, nodes + 1)
    return {"in": [0 if i == 1 else i * 5 % 7 for i in n] if nodes == 20 else [2] * nodes,
            "out": [0 if i == 19 else 1 + i * 3 % 6 for i in n] if nodes == 20 else [2] * nodes,
            "maxch": maxch, "sysin": sysin, "sysout": sysout, "small": True}


PLAN["C01"]["jobs"] += [
    dict(name="graph-fast", module="GraphBig", constants=dict(graph_consts("A", "Nodes3", 2, 2, 2, 2), SimDepth=0), invariants=["Agree"], emit=False),
    dict(name="graph-20-sim", module="GraphBig", spec="BigSpec", kind="graph", constants=graph_big(20, 6, 4, 8, 34),
         params=graph_big_params(20, 6, 4, 8), invariants=["TypeOK"], simulate=600, depth=90),
    dict(name="graph-9-sim", module="GraphBig", spec="BigSpec", kind="graph", constants=graph_big(9, 2, 2, 2, 20),
         params=graph_big_params(9, 2, 2, 2), invariants=["TypeOK"], simulate=1200, depth=60),
    dict(name="lanes", module="Lanes", kind="lanes", params={}, invariants=["Whole", "Most", "GoneIsCut"],
         constants=dict(Lanes="{1, 2}", Batches="{1, 2}", MaxNodes=3, MaxOps=4, Sim="FALSE")),
    dict(name="lanes-sim", module="Lanes", kind="lanes", params={}, invariants=["Whole", "Most"], simulate=60, depth=40,
         constants=dict(Lanes="{1, 2, 3, 4, 5}", Batches="{1, 30, 250}", MaxNodes=900, MaxOps=40, Sim="TRUE")),
    dict(name="lanes-long", module="Lanes", kind="lanes", params={}, invariants=["Whole", "Most"], simulate=600, depth=120, tiers=("thorough",),
         constants=dict(Lanes="{1, 2, 3, 4, 5}", Batches="{1, 30, 250}", MaxNodes=1500, MaxOps=120, Sim="TRUE")),
    dict(name="graph-20-long", module="GraphBig", spec="BigSpec", kind="graph", constants=graph_big(20, 6, 4, 8, 40),
         params=graph_big_params(20, 6, 4, 8), invariants=["TypeOK"], simulate=8000, depth=200, tiers=("thorough",)),
]

AUTO_INV = ["TakenOnce", "Ordered", "NotBoth", "Ends", "RunsAgree", "CutAnywhere"]


def automation(values, kinds, tick, frames, blocks, pending, cmds, burst=99, least=0):
    return dict(Values=values, Kinds=kinds, Ticks=f"<-Ticks{tick}", MaxFrames=frames, Blocks=blocks, MaxPending=pending, MaxCmds=cmds, Burst=burst, Least=least)


PLAN["C04"] = dict(jobs=[
    dict(name="automation-lin", module="Automation", kind="automation", params={},
         constants=automation("<-V1", '{"lin"}', 5, 4, "{1, 2}", 2, 2), invariants=AUTO_INV),
    dict(name="automation-exp", module="Automation", kind="automation", params={},
         constants=automation("{8}", '{"exp"}', 4, 4, "{1, 4}", 2, 2), invariants=AUTO_INV),
    dict(name="automation-lin-sim", module="Automation", kind="automation", params={},
         constants=automation("<-V2", '{"lin"}', 16, 40, "{0, 1, 3}", 5, 30, 2), invariants=AUTO_INV, simulate=6000, depth=24),
    dict(name="automation-exp-sim", module="Automation", kind="automation", params={},
         constants=automation("{1, 4, 6}", '{"lin", "exp"}', 24, 40, "{1, 2, 5}", 6, 30, 3), invariants=AUTO_INV, simulate=6000, depth=24),
    dict(name="automation-far-sim", module="Automation", kind="automation", params={},
         constants=automation("{1, 4, 6, 300}", '{"lin", "exp"}', "Far", 160000, "{1, 500, 3000, 10000}", 6, 30, 4), invariants=AUTO_INV[:4], simulate=300, depth=16),
    dict(name="automation-crowd-sim", module="Automation", kind="automation", params={},
         constants=automation("{1, 4, 6}", '{"lin", "exp"}', "Crowd", 1500, "{1, 2, 9, 40, 200}", 60, 999, 50, 40), invariants=AUTO_INV[:4], simulate=250, depth=130),
    dict(name="automation-lin3", module="Automation", kind="automation", params={}, heap="10g", workers=8,
         constants=automation("<-V3", '{"lin"}', 4, 4, "{1, 2}", 3, 3), invariants=AUTO_INV, tiers=("thorough",)),
    dict(name="automation-long", module="Automation", kind="automation", params={},
         constants=automation("{1, 4, 6}", '{"lin", "exp"}', 60, 80, "{1, 2, 5, 7}", 8, 60, 2), invariants=AUTO_INV,
         simulate=100000, depth=50, tiers=("thorough",)),
])


def params_consts(cmds, frames, blocks, delays, burst):
    return dict(Instances="<-Everything", Requests="<-Reqs", MaxCmds=cmds, MaxFrames=frames, Blocks=blocks, Delays=delays, Burst=burst)


PARAM_INV = ["TableValid", "InRange"]
PLAN["C05"] = dict(jobs=[
    dict(name="params-1", module="Params", kind="params", constants=params_consts(1, 6, "{4}", "{0, 2}", 9), invariants=PARAM_INV,
         properties=["OnlyTarget"], view=False),
    dict(name="params-sim", module="Params", kind="params", constants=params_consts(99, 400, "{1, 2, 5}", "{0, 1, 4}", 4), invariants=PARAM_INV,
         properties=["OnlyTarget"], simulate=1500, depth=30),
    dict(name="params-long", module="Params", kind="params", constants=params_consts(999, 4000, "{1, 2, 5}", "{0, 1, 4}", 6), invariants=PARAM_INV,
         properties=["OnlyTarget"], simulate=20000, depth=80, tiers=("thorough",)),
])


def transport(cmds, frames, blocks, values, burst):
    return dict(MaxCmds=cmds, MaxFrames=frames, Blocks=blocks, Values=values, Burst=burst)


TRANSPORT_INV = ["NeverLate", "ClockIsHeard"]
PLAN["C03"] = dict(jobs=[
    dict(name="transport", module="Transport", kind="transport", constants=transport(5, 6, "{0, 1, 3}", "{2}", 99), invariants=TRANSPORT_INV,
         properties=["StoppedIsStill"], params={}),
    dict(name="transport-sim", module="Transport", kind="transport", constants=transport(99, 2000, "{0, 1, 2, 3, 5, 9}", "{0, 2, 7}", 3), invariants=TRANSPORT_INV,
         properties=["StoppedIsStill"], params={}, simulate=4000, depth=40),
    dict(name="transport-6", module="Transport", kind="transport", constants=transport(7, 7, "{0, 1, 3}", "{2}", 99), invariants=TRANSPORT_INV,
         properties=["StoppedIsStill"], params={}, tiers=("thorough",)),
    dict(name="transport-long", module="Transport", kind="transport", constants=transport(999, 90000, "{0, 1, 2, 3, 5, 9}", "{0, 2, 7}", 3), invariants=TRANSPORT_INV,
         properties=["StoppedIsStill"], params={}, simulate=20000, depth=200, tiers=("thorough",)),
])


def sampler(length, positions, loops, times, cmds, pending, frames, blocks, burst, least=0):
    return dict(Length=length, Fade=4, Positions=positions, Loops="<-" + loops, Times="<-" + times, MaxCmds=cmds, MaxPending=pending,
                MaxFrames=frames, Blocks=blocks, Burst=burst, Least=least)


SAMPLER_INV = ["Positioned", "FadesEnd", "InOrder", "Punctual", "CutAnywhere"]
SAMPLER_PROP = ["PlaysOn", "StopSilences"]
PLAN["C06"] = dict(jobs=[
    dict(name="sampler", module="Sampler", kind="sampler", constants=sampler(6, "{0, 2}", "LoopsA", "TimesA", 3, 3, 10, "{2, 7}", 99),
         params={"length": 6}, invariants=SAMPLER_INV, properties=SAMPLER_PROP),
    dict(name="sampler-sim", module="Sampler", kind="sampler", constants=sampler(29, "{0, 1, 5, 17, 28, 40}", "LoopsB", "TimesB", 99, 12, 2000, "{1, 3, 8, 20}", 2),
         params={"length": 29}, invariants=SAMPLER_INV[:4], properties=SAMPLER_PROP, simulate=5000, depth=26),
    dict(name="sampler-short-sim", module="Sampler", kind="sampler", constants=sampler(12, "{0, 1, 11}", "LoopsC", "TimesC", 99, 12, 2000, "{1, 2, 5}", 3),
         params={"length": 12}, invariants=SAMPLER_INV[:4], properties=SAMPLER_PROP, simulate=5000, depth=26),
    dict(name="sampler-4", module="Sampler", kind="sampler", constants=sampler(6, "{0, 2}", "LoopsA", "TimesA", 4, 4, 12, "{2, 8}", 99),
         params={"length": 6}, invariants=SAMPLER_INV, properties=SAMPLER_PROP, tiers=("thorough",), heap="12g", workers=8),
    dict(name="sampler-long", module="Sampler", kind="sampler", constants=sampler(29, "{0, 1, 5, 17, 28, 40}", "LoopsB", "TimesB", 999, 12, 20000, "{1, 3, 8, 20, 60}", 3),
         params={"length": 29}, invariants=SAMPLER_INV[:4], properties=SAMPLER_PROP, simulate=40000, depth=80, tiers=("thorough",)),
])


def events(gates, ahead, levels, cmds, pending, frames, blocks, burst, least=0):
    return dict(Gates="{1, 2}" if gates == 2 else "{1}", Tick=4, Ahead="<-" + ahead, Levels=levels, MaxCmds=cmds, MaxPending=pending, MaxFrames=frames,
                Blocks=blocks, Burst=burst, Least=least)


def recorder(ahead, cmds, pending, time, blocks, burst, least=0):
    return dict(Ahead="<-" + ahead, MaxCmds=cmds, MaxPending=pending, MaxTime=time, Blocks=blocks, Burst=burst, Least=least)


def notifiers(name, nodes, ops, blocks, lively=0, **kw):
    return dict(name=name, module="Notifiers", kind="notifiers", params={"nodes": nodes}, invariants=["Bounded", "Fresh"],
                properties=["Undisturbed"], constants=dict(Nodes="{%s}" % ", ".join(map(str, range(1, nodes + 1))), Blocks=blocks, MaxOps=ops,
                                                          Capacity=32, Lively=lively), **kw)


EVENTS_INV = ["InOrder", "Punctual", "NoMore"]
PLAN["C07"] = dict(jobs=[
    dict(name="events", module="Events", kind="events", constants=events(1, "AheadA", "{4}", 4, 4, 6, "{1, 2, 3}", 99),
         params={"gates": 1, "tick": 4}, invariants=EVENTS_INV + ["CutAnywhere"], properties=["Isolated"]),
    dict(name="events-sim", module="Events", kind="events", constants=events(2, "AheadB", "{0, 2, 4, 8}", 99, 12, 2000, "{0, 1, 2, 3, 7}", 4),
         params={"gates": 2, "tick": 4}, invariants=EVENTS_INV, properties=["Isolated"], simulate=8000, depth=30),
    dict(name="sampler-events-sim", module="Sampler", kind="sampler", constants=sampler(29, "{0, 1, 5, 17, 28}", "LoopsA", "TimesB", 99, 14, 2000, "{1, 3, 8}", 4),
         params={"length": 29}, invariants=SAMPLER_INV[:4], properties=SAMPLER_PROP, simulate=3000, depth=30),
    dict(name="recorder-events-sim", module="Recorder", kind="recorder", constants=recorder("AheadB", 99, 12, 2000, "{1, 2, 3}", 5),
         params={}, invariants=["Bounded", "Complete", "InOrder"], properties=["Steady", "Idle"], simulate=400, depth=24),
    dict(name="events-crowd-sim", module="Events", kind="events", constants=events(2, "AheadC", "{0, 2, 8}", 999, 300, 2000, "{0, 1, 3, 7, 40}", 150, 100),
         params={"gates": 2, "tick": 4}, invariants=EVENTS_INV, properties=["Isolated"], simulate=60, depth=350),
    dict(name="sampler-crowd-sim", module="Sampler", kind="sampler", constants=sampler(29, "{0, 1, 5, 17, 28}", "LoopsA", "TimesD", 999, 100, 2000, "{1, 3, 8, 30}", 30, 24),
         params={"length": 29}, invariants=SAMPLER_INV[:4], properties=SAMPLER_PROP, simulate=100, depth=150),
    dict(name="recorder-crowd-sim", module="Recorder", kind="recorder", constants=recorder("AheadC", 999, 100, 2000, "{1, 2, 3, 11}", 60, 40),
         params={}, invariants=["Bounded", "Complete", "InOrder"], properties=["Steady", "Idle"], simulate=60, depth=160),
    dict(name="events-long", module="Events", kind="events", constants=events(2, "AheadB", "{0, 2, 4, 8}", 999, 12, 20000, "{0, 1, 2, 3, 7, 20}", 5),
         params={"gates": 2, "tick": 4}, invariants=EVENTS_INV, properties=["Isolated"], simulate=60000, depth=100, tiers=("thorough",)),
    dict(name="events-5", module="Events", kind="events", constants=events(1, "AheadA", "{4}", 5, 5, 6, "{1, 2, 3}", 99),
         params={"gates": 1, "tick": 4}, invariants=EVENTS_INV + ["CutAnywhere"], tiers=("thorough",), heap="12g", workers=8),
])
RECORDER_INV = ["Bounded", "Complete", "ToldComplete", "InOrder"]
PLAN["C08"] = dict(jobs=[
    dict(name="recorder", module="Recorder", kind="recorder", constants=recorder("AheadA", 3, 3, 4, "{1, 2}", 99),
         params={}, invariants=RECORDER_INV + ["CutAnywhere"], properties=["Steady", "Idle"]),
    dict(name="recorder-sim", module="Recorder", kind="recorder", constants=recorder("AheadB", 99, 8, 2000, "{0, 1, 2, 5, 20}", 3),
         params={}, invariants=RECORDER_INV, properties=["Steady", "Idle"], simulate=2500, depth=26),
    dict(name="recorder-big-sim", module="Recorder", kind="recorder", constants=recorder("AheadB", 99, 8, 2000, "{1, 3, 40, 70}", 3),
         params={"units": [1024, 4095, 4096, 4097]}, invariants=RECORDER_INV, properties=["Steady", "Idle"], simulate=60, depth=12),
    dict(name="recorder-long", module="Recorder", kind="recorder", constants=recorder("AheadB", 999, 8, 20000, "{0, 1, 2, 5, 30}", 3),
         params={}, invariants=RECORDER_INV, properties=["Steady", "Idle"], simulate=6000, depth=80, tiers=("thorough",)),
])


def envelope(name, attack, release, num, den, patterns, blocks, frames, ops, burst=99, **kw):
    inv = ["Bounded", "DueInTime"] + ([] if kw.get("simulate") else ["Rate", "CutAnywhere"])
    return dict(name=name, module="Envelope", kind="envelope", invariants=inv,
                params={"channels": 3, "attack": attack, "release": release, "num": num, "den": den},
                constants=dict(Channels=3, Attack=attack, Release=release, Num=num, Den=den, Patterns="<-" + patterns, Blocks=blocks,
                               MaxFrames=frames, MaxOps=ops, Safe=16, Burst=burst), **kw)


PLAN["C09"] = dict(jobs=[
    envelope("envelope", 2, 2, 7, 2, "PatternsA", "{1, 4}", 12, 6),
    envelope("envelope-zero", 0, 0, 3, 1, "PatternsA", "{1, 4}", 12, 6),
    envelope("envelope-sim-a", 2, 3, 7, 2, "PatternsB", "{0, 1, 3, 9, 40}", 4000, 99, 2, simulate=1200, depth=24),
    envelope("envelope-sim-b", 3, 0, 9, 4, "PatternsB", "{0, 1, 3, 9, 40}", 4000, 99, 2, simulate=1200, depth=24),
    envelope("envelope-sim-c", 0, 3, 1, 1, "PatternsB", "{0, 1, 3, 9, 40}", 4000, 99, 3, simulate=1200, depth=24),
    envelope("envelope-sim-d", 0, 2, 31, 1, "PatternsB", "{0, 1, 3, 9, 40}", 4000, 99, 3, simulate=1200, depth=24),
    envelope("envelope-long", 2, 3, 23, 4, "PatternsB", "{0, 1, 3, 9, 40}", 40000, 999, 3, simulate=30000, depth=80, tiers=("thorough",)),
    envelope("envelope-7", 2, 2, 7, 2, "PatternsA", "{1, 4, 5}", 18, 7, tiers=("thorough",), heap="10g", workers=8),
])


PLAN["C10"] = dict(jobs=[
    dict(name="adsr-model", module="Adsr", kind="adsr", emit=False, view=False, invariants=["InRange", "OnTime", "Silent", "Holds", "UnityFirst", "CanGoOn"],
         constants=dict(Unity=8, Tol=0, Times="{0, 1, 3}", Sustains="{0, 4, 8}")),
    dict(name="adsr-runs", module="AdsrTrace", kind="adsr", validate=True, count=400,
         constants=dict(Unity=1000000, Tol=30, Times="{0}", Sustains="{0}")),
    dict(name="gate-sim", module="Events", kind="events", constants=events(2, "AheadB", "{0, 2, 4, 8}", 99, 12, 2000, "{0, 1, 2, 3, 7}", 4),
         params={"gates": 2, "tick": 4}, invariants=EVENTS_INV, properties=["Isolated"], simulate=3000, depth=30),
    dict(name="adsr-runs-long", module="AdsrTrace", kind="adsr", validate=True, count=8000, tiers=("thorough",),
         constants=dict(Unity=1000000, Tol=30, Times="{0}", Sustains="{0}")),
])


def mixer(name, ins, outs, kind, levels, cmds, blocks, burst=99, least=0, **kw):
    return dict(name=name, module="Mixer", kind="mixer", params={"in": ins, "out": outs, "kind": kind}, invariants=[] if kw.get("simulate") else ["MostRecent"],
                constants=dict(In=ins, Out=outs, Kind=f'"{kind}"', Levels="<-" + levels, MaxCmds=cmds, MaxBlocks=blocks, Burst=burst, Least=least), **kw)


PLAN["C11"] = dict(jobs=[
    mixer("mixer-2x2", 2, 2, "new", "LevelsA", 3, 2, view=False),
    mixer("mixer-split", 1, 2, "split", "LevelsA", 3, 3, view=False),
    mixer("mixer-unity", 2, 2, "unity", "LevelsA", 2, 2),
    mixer("mixer-flood-sim", 3, 4, "new", "LevelsB", 9999, 99, 1200, 900, simulate=12, depth=2600),
    mixer("mixer-3x8-sim", 3, 8, "new", "LevelsB", 999, 99, 12, simulate=1500, depth=60),
    mixer("mixer-8x2-sim", 8, 2, "new", "LevelsB", 999, 99, 12, simulate=1500, depth=60),
    mixer("mixer-8x8-sim", 8, 8, "unity", "LevelsB", 999, 99, 40, simulate=500, depth=140),
    mixer("mixer-1x1-sim", 1, 1, "new", "LevelsB", 999, 99, 4, simulate=500, depth=40),
    mixer("mixer-5x4-sim", 5, 4, "new", "LevelsB", 999, 999, 12, simulate=30000, depth=100, tiers=("thorough",)),
    mixer("mixer-2x2-deep", 2, 2, "new", "LevelsA", 5, 3, tiers=("thorough",), workers=8, heap="10g"),
])


def buffer(name, ch, fr, paths, src, gains, tables, ops, **kw):
    return dict(name=name, module="Buffer", kind="buffer", params={"ch": {"ChA": [2, 2], "ChC": [3, 2]}[ch], "frames": fr}, properties=["OnlyTheView"],
                constants=dict(Ch="<-" + ch, Fr=fr, Paths="<-" + paths, SrcPaths="<-" + src, Gains="<-" + gains, Tables="<-" + tables, MaxOps=ops, Sim="TRUE" if kw.get("simulate") else "FALSE", Ranged="FALSE" if name == "buffer-slices" else "TRUE"), **kw)


PLAN["C14"] = dict(jobs=[
    buffer("buffer-slices", "ChA", 3, "PathsA", "SrcA", "GainsA", "TablesA", 1, view=False),
    buffer("buffer-nested", "ChA", 3, "PathsB", "SrcB", "GainsA", "TablesA", 1, view=False),
    buffer("buffer-sim", "ChC", 5, "PathsC", "PathsC", "GainsC", "TablesC", 99, simulate=4000, depth=8),
    dict(name="resample", module="Resample", kind="resample", params={"channels": 2}, invariants=["InBetween"],
         constants=dict(Rates="<-RatesA", Lengths="<-LengthsA", Offsets="{0, 1, 2}", Ch=2, Count=40, MaxOps=1)),
    dict(name="resample-long", module="Resample", kind="resample", params={"channels": 1}, invariants=["InBetween"],
         constants=dict(Rates="<-RatesB", Lengths="<-LengthsB", Offsets="{0, 1001}", Ch=1, Count=2000, MaxOps=1)),
    buffer("buffer-sim-long", "ChC", 5, "PathsC", "PathsC", "GainsC", "TablesC", 99, simulate=60000, depth=24, tiers=("thorough",)),
])


OSC_TABLES = {"TableA": [0, 3, -2, 5], "TableB": [1, -4, 7], "TableC": [-1, 0, 2, 2, 9, -9, 4]}


def oscillator(name, sr, table, start, freqs, gains, blocks, cmds, nblocks, burst=99, **kw):
    return dict(name=name, module="Oscillator", kind="oscillator", params={"sr": sr, "table": OSC_TABLES[table], "start": start},
                invariants=["InTable"], properties=["Continuous"],
                constants=dict(Sr=sr, Table="<-" + table, Start=start, Freqs=freqs, Gains="<-" + gains, Blocks=blocks, MaxCmds=cmds, MaxBlocks=nblocks,
                               Shown=24, Burst=burst), **kw)


PLAN["C15"] = dict(jobs=[
    oscillator("oscillator-1024", 1024, "TableA", 64, "{100, 1023, 3000}", "GainsA", "{1, 6}", 2, 3, view=False),
    oscillator("oscillator-48000", 48000, "TableB", 440, "{10, 997, 12000, 30000}", "GainsA", "{1, 6}", 2, 3, view=False),
    oscillator("oscillator-44100-sim", 44100, "TableC", 20, "{20, 441, 1000, 19999, 20000}", "GainsA", "{1, 7, 40, 5000}", 99, 99, 2, simulate=800, depth=24),
    oscillator("oscillator-997-sim", 997, "TableB", 2000, "{20, 441, 996, 997, 998, 19999}", "GainsA", "{1, 7, 40, 500}", 99, 99, 2, simulate=800, depth=24),
    oscillator("oscillator-long", 48000, "TableC", 440, "{20, 441, 1000, 19999, 20000}", "GainsA", "{1, 7, 40, 50000}", 999, 999, 2, simulate=6000, depth=60,
               tiers=("thorough",)),
    dict(name="harmonics", module="Harmonics", kind="harmonics", params={}, invariants=["Odd"],
         constants=dict(Levels="{0, 1, 4, 6}", MaxHarmonics=4, Divisors="{8, 12}")),
    dict(name="harmonics-many", module="Harmonics", kind="harmonics", params={}, invariants=["Odd"], tiers=("thorough",),
         constants=dict(Levels="{0, 1, 4, 6}", MaxHarmonics=7, Divisors="{8, 12}")),
])


TAPS = {"TapsA": [[[0, 2], [1, -1], [3, 3]]],
        "TapsB": [[[0, 1], [7, -2], [16, 3], [39, 1]], [[1, 4], [2, 1], [31, 2], [32, -3]]],
        "TapsC": [[[0, 1], [100, -2], [255, 3], [256, 1], [299, 2]]],
        "TapsD": [[[0, 3]], [[0, -1]], [[0, 2]]],
        "TapsE": [[[0, 1], [500, -2], [2047, 3], [2048, 1], [4999, 2]], [[1, 1], [777, -2], [1023, 3], [4096, 1], [4999, 2]]]}


def convolution(name, taps, blocks, cmds, nblocks, burst=99, **kw):
    return dict(name=name, module="Convolution", kind="convolution", params={"taps": TAPS[taps]}, invariants=["Dies"],
                constants=dict(Taps="<-" + taps, Blocks=blocks, MaxCmds=cmds, MaxBlocks=nblocks, Shown=24, Burst=burst), **kw)


PLAN["C16"] = dict(jobs=[
    convolution("convolution", "TapsA", "{1, 2, 5}", 1, 4, view=False),
    convolution("convolution-b-sim", "TapsB", "{0, 1, 5, 16, 40}", 99, 99, 2, simulate=1200, depth=20),
    convolution("convolution-c-sim", "TapsC", "{1, 16, 100, 256}", 99, 99, 2, simulate=600, depth=20),
    convolution("convolution-d-sim", "TapsD", "{1, 16, 40}", 99, 99, 3, simulate=600, depth=20),
    convolution("convolution-e-sim", "TapsE", "{3, 1000, 3000}", 99, 99, 2, simulate=60, depth=14),
    convolution("convolution-5", "TapsA", "{1, 2, 5}", 2, 5, tiers=("thorough",), view=False, workers=8, heap="10g"),
    convolution("convolution-long", "TapsC", "{1, 16, 100, 256}", 999, 999, 2, simulate=8000, depth=50, tiers=("thorough",)),
])


def shape(name, kind, shaper, channels, v1, v2, blocks, cmds, nblocks, burst=99, **kw):
    return dict(name=name, module="Shape", kind="shape", params={"kind": kind, "shaper": shaper, "channels": channels}, invariants=["Sides"],
                constants=dict(Kind=f'"{kind}"', Shaper=f'"{shaper}"', Channels=channels, Values1=v1, Values2=v2, Blocks=blocks, MaxCmds=cmds,
                               MaxBlocks=nblocks, Burst=burst), **kw)


PLAN["C17"] = dict(jobs=[
    shape("gain", "gain", "", 2, "<-GainValues", "{}", "{1, 5}", 3, 2, view=False),
    shape("pan", "pan", "", 2, "<-PanValues", "{}", "{1, 5}", 3, 2, view=False),
    shape("shaper", "shaper", "jagged", 2, "{1, 2, 3}", "{0, 1, 4}", "{1, 12}", 2, 2, view=False),
    shape("gain-sim", "gain", "", 3, "<-GainValues", "{}", "{0, 1, 17, 40}", 99, 99, 5, simulate=400, depth=30),
    shape("pan-sim", "pan", "", 2, "<-PanValues", "{}", "{0, 1, 17, 40}", 99, 99, 5, simulate=400, depth=30),
] + [shape(f"shaper-{s}-sim", "shaper", s, 2, "{1, 2, 3}", "{0, 1, 3, 4}", "{1, 17, 40}", 99, 99, 4, simulate=250, depth=24)
     for s in ("jagged", "square", "identity", "clip", "offset", "tanh", "soft")] + [
    shape("gain-long", "gain", "", 4, "<-GainValues", "{}", "{0, 1, 17, 40, 130}", 999, 999, 5, simulate=8000, depth=60, tiers=("thorough",)),
    shape("shaper-long", "shaper", "jagged", 3, "{1, 2, 3}", "{0, 1, 3, 4}", "{1, 17, 40, 130}", 999, 999, 4, simulate=8000, depth=60, tiers=("thorough",)),
])


def compressor(name, ts, ks, rs, ws, ds, blocks, sets, nblocks, **kw):
    return dict(name=name, module="Compressor", kind="compressor", params={}, invariants=["Curves", "AtThreshold"],
                constants=dict(Thresholds="<-" + ts, Knees=ks, Ratios=rs, Wets=ws, Drys=ds, Lo="<-MinusSixty", Hi=12, Blocks=blocks, MaxSets=sets,
                               MaxBlocks=nblocks), **kw)


def follower(name, channels, attack, release, threshold, blocks, nblocks, sets, **kw):
    return dict(name=name, module="Follower", kind="follower", params={"channels": channels, "attack": attack, "release": release, "threshold": threshold},
                invariants=["Bounded"],
                constants=dict(Channels=channels, Attack=attack, Release=release, Threshold=threshold, Inputs="<-InputsA", Times="{0, 1, 2, 3}", MaxSets=sets, Blocks=blocks, MaxBlocks=nblocks), **kw)


PLAN["C18"] = dict(jobs=[
    compressor("compressor", "ThresholdsA", "{0, 6, 24}", "{0, 1, 4}", "{4, 2}", "{0, 3}", "{40}", 1, 2, view=False),
    compressor("compressor-sim", "ThresholdsB", "{0, 1, 6, 12, 24}", "{0, 1, 2, 3, 10}", "{0, 4, 7}", "{0, 1, 4}", "{1, 17, 40}", 99, 99, simulate=400, depth=12),
    follower("follower-a", 2, 2, 3, 3, "{1, 4}", 3, 1, view=False),
    follower("follower-b", 1, 0, 2, 2, "{1, 5}", 3, 1, view=False),
    follower("follower-c-sim", 3, 3, 1, 4, "{1, 2, 7, 20}", 99, 99, simulate=600, depth=10),
    follower("follower-d-sim", 2, 3, 0, 1, "{1, 2, 7, 20}", 99, 99, simulate=600, depth=10),
    compressor("compressor-long", "ThresholdsB", "{0, 1, 6, 12, 24}", "{0, 1, 2, 3, 10}", "{0, 4, 7}", "{0, 1, 4}", "{1, 17, 40}", 999, 999, simulate=20000, depth=40,
               tiers=("thorough",)),
    follower("follower-long", 2, 3, 2, 3, "{1, 2, 7, 20, 40}", 999, 999, simulate=20000, depth=40, tiers=("thorough",)),
])


def biquad(name, type, qq, a, channels, blocks, cmds, nblocks, burst=99, **kw):
    return dict(name=name, module="Biquad", kind="biquad", params={"type": type, "qq": qq, "a": a, "channels": channels}, invariants=["Design"],
                constants=dict(Type=f'"{type}"', QQ=qq, A=a, Channels=channels, Inputs="<-InputsA", Gains="{0, 1, 8}", Blocks=blocks, MaxCmds=cmds,
                               MaxBlocks=nblocks, Burst=burst), **kw)


BIQUADS = [("lowpass", 1, 1), ("lowpass", 4, 1), ("highpass", 2, 1), ("highpass", 1, 1), ("bandpass", 3, 1), ("notch", 2, 1),
           ("lowshelf", 2, 4), ("lowshelf", 1, 1), ("highshelf", 2, 4), ("highshelf", 1, 1)]
PLAN["C19"] = dict(jobs=[
    dict(name="response", module="Response", kind="response", params={}, invariants=["Opposite"], view=False,
         constants=dict(Types="<-TypesA", Freqs="{3, 5, 48, 100}", Qs="{7, 40}", Shelves="{3, 20}", Outs="{4, 6}", Ways='{"now"}', MaxSets=1, MaxTones=1)),
    dict(name="response-sim", module="Response", kind="response", params={}, invariants=["Opposite"], simulate=400, depth=8,
         constants=dict(Types="<-TypesA", Freqs="{3, 4, 5, 48, 100, 480, 600}", Qs="{1, 3, 7, 10, 40, 100}", Shelves="{1, 3, 10, 20, 100}", Outs="{0, 1, 4, 6}",
                        Ways="<-WaysA", MaxSets=99, MaxTones=99)),
    dict(name="response-long", module="Response", kind="response", params={}, invariants=["Opposite"], simulate=20000, depth=16, tiers=("thorough",),
         constants=dict(Types="<-TypesA", Freqs="{3, 4, 5, 7, 48, 100, 480, 600}", Qs="{1, 2, 3, 7, 10, 40, 100}", Shelves="{1, 2, 3, 10, 20, 100, 300}", Outs="{0, 1, 4, 6}",
                        Ways="<-WaysA", MaxSets=99, MaxTones=99)),
] + [biquad(f"biquad-{t}-{q}-{a}-sim", t, q, a, 2, "{0, 1, 2, 9, 20}", 99, 99, 2, simulate=150, depth=16) for t, q, a in BIQUADS]
  + [biquad(f"biquad-{t}-{q}-{a}", t, q, a, 2, "{1, 2, 9}", 1, 3, tiers=("thorough",)) for t, q, a in BIQUADS])


def conversions(name, module, kind, consts, ops, props, inv, **kw):
    return dict(name=name, module=module, kind=kind, params={"second": 4 if consts.get("Units") == "<-Coarse" else 7056000}, properties=props, invariants=inv, constants=dict(consts, MaxOps=ops), **kw)


PLAN["C21"] = dict(jobs=[
    conversions("time", "Time", "time", dict(Units="<-Fine", Amounts="<-AmountsA"), 2, ["OneAtATime"], [], view=False),
    conversions("time-sim", "Time", "time", dict(Units="<-Fine", Amounts="<-AmountsB"), 999, ["OneAtATime"], [], simulate=3000, depth=30),
    conversions("time-years", "Time", "time", dict(Units="<-Coarse", Amounts="<-AmountsC"), 1, ["OneAtATime"], [], view=False),
    conversions("time-years-sim", "Time", "time", dict(Units="<-Coarse", Amounts="<-AmountsC"), 999, ["OneAtATime"], [], simulate=2000, depth=30),
    conversions("levels", "Levels", "levels", dict(Decibels="<-DecibelsA", Powers="<-PowersA"), 2, [], ["Monotone"], view=False),
    conversions("levels-sim", "Levels", "levels", dict(Decibels="<-DecibelsB", Powers="<-PowersB"), 999, [], ["Monotone"], simulate=2000, depth=20),
    conversions("time-long", "Time", "time", dict(Units="<-Fine", Amounts="<-AmountsB"), 9999, ["OneAtATime"], [], simulate=30000, depth=150, tiers=("thorough",)),
    conversions("levels-3", "Levels", "levels", dict(Decibels="<-DecibelsA", Powers="<-PowersA"), 3, [], ["Monotone"], tiers=("thorough",)),
])


def lifecycle(v, nodes, ops, edges, live=False, rare=1):
    return dict(Nodes="{%s}" % ", ".join(map(str, range(1, nodes + 1))), Own="<-Own" + v, Weight="<-Weight" + v, MaxOps=ops, MaxEdges=edges, Live=str(live).upper(), Rare=rare)


LIFE_INV = ["Once", "Held", "NoDangling"]
LIFE_PROP = ["NotInBlock", "Undisturbed"]
LIFE_A = {"own": [1, 2], "weight": [1, 1]}
LIFE_A3 = {"own": [1, 2, 4], "weight": [1, 1, 1]}
LIFE_B = {"own": [1, 2, 0, 8, 0, 0], "weight": [1, 1, 1, 1, 0, 1]}
PLAN["C13"] = dict(jobs=[
    dict(name="lifecycle", module="Lifecycle", kind="lifecycle", params=LIFE_A, constants=lifecycle("A", 2, 8, 2), invariants=LIFE_INV, properties=LIFE_PROP),
    dict(name="lifecycle-live", module="Lifecycle", emit=False, constants=dict(lifecycle("A", 2, 7, 1, True), SimDepth=0), spec="LiveSpec",
         invariants=LIFE_INV, properties=LIFE_PROP + ["AllGone"], view=False),
    dict(name="lifecycle-sim", module="Lifecycle", kind="lifecycle", params=LIFE_B, constants=lifecycle("B", 6, 99, 6, rare=12), invariants=LIFE_INV,
         properties=LIFE_PROP, simulate=6000, depth=30),
    dict(name="lifecycle-pause", module="Lifecycle", kind="lifecycle", params=dict(LIFE_B, pause=5), constants=lifecycle("B", 6, 99, 6, rare=12),
         invariants=LIFE_INV, properties=LIFE_PROP, simulate=100, depth=30),
    notifiers("notifiers", 2, 7, "{2}"),
    notifiers("notifiers-sim", 6, 99, "{1, 2, 5}", 1, simulate=3000, depth=40),
    notifiers("notifiers-long", 9, 999, "{1, 2, 5}", 1, simulate=20000, depth=120, tiers=("thorough",)),
    dict(name="lifecycle-3", module="Lifecycle", kind="lifecycle", params=LIFE_A3, constants=lifecycle("A", 3, 8, 2), invariants=LIFE_INV,
         properties=LIFE_PROP, tiers=("thorough",), heap="12g", workers=8),
    dict(name="lifecycle-live-3", module="Lifecycle", emit=False, constants=dict(lifecycle("A", 3, 9, 2, True), SimDepth=0), spec="LiveSpec",
         invariants=LIFE_INV, properties=LIFE_PROP + ["AllGone"], view=False, tiers=("thorough",), heap="12g", workers=8),
    dict(name="lifecycle-long", module="Lifecycle", kind="lifecycle", params=LIFE_B, constants=lifecycle("B", 6, 999, 6, rare=20), invariants=LIFE_INV,
         properties=LIFE_PROP, simulate=40000, depth=60, tiers=("thorough",)),
])


def partition(values, durations, ahead, cuts, maxima, total, cmds, stretches, burst, sim=False):
    return dict(Nodes="{1, 2}", Values=values, Durations=durations, Ahead="<-" + ahead, Cuts="<-" + cuts, Maxima=maxima, Total=total, MaxCmds=cmds,
                MaxStretches=stretches, Burst=burst, Sim=str(sim).upper())


PLAN["C02"] = dict(jobs=[
    dict(name="partition", module="Partition", kind="partition", params={}, invariants=["Same"],
         constants=partition("{1}", "{0, 3}", "AheadA", "CutsA", "{1, 3}", 4, 2, 2, 2)),
    dict(name="partition-sim", module="Partition", kind="partition", params={}, invariants=["Same"], simulate=5000, depth=16,
         constants=partition("{0, 1, 2, 3}", "{0, 1, 5, 12}", "AheadB", "CutsA", "{1, 3, 8, 16, 50}", 16, 99, 99, 4, True)),
    dict(name="partition-3", module="Partition", kind="partition", params={}, invariants=["Same"], tiers=("thorough",), heap="12g", workers=8,
         constants=partition("{1}", "{0, 3}", "AheadA", "CutsA", "{1, 2}", 4, 3, 2, 3)),
    dict(name="partition-long", module="Partition", kind="partition", params={}, invariants=["Same"], simulate=40000, depth=30, tiers=("thorough",),
         constants=partition("{0, 1, 2, 3}", "{0, 1, 5, 12}", "AheadB", "CutsA", "{1, 3, 8, 16, 50}", 16, 999, 999, 4, True)),
])


def commands(issues, n, calls, reads):
    return dict(Issues="<-" + issues, MaxIssues=n, MaxCalls=calls, MaxReads=reads)


COMMANDS_INV = ["InOrder", "InForce", "LevelsInForce", "NeverAhead", "WasReal"]
PLAN["C12"] = dict(jobs=[
    dict(name="commands", module="CommandsMC", emit=False, view=False, constants=commands("IssuesA", 3, 2, 1), invariants=COMMANDS_INV, properties=["Monotone"]),
    dict(name="commands-live", module="CommandsMC", emit=False, view=False, spec="AudioLive", constants=commands("IssuesA", 2, 2, 1), properties=["Returns"]),
    dict(name="commands-runs", module="CommandsTrace", kind="commands", validate=True, view=True, count=400),
    dict(name="readings", module="ReadingsTrace", kind="readings", validate=True, view=True, count=160, invariants=["Past"]),
    dict(name="commands-4", module="CommandsMC", emit=False, view=False, constants=commands("IssuesB", 4, 3, 2), invariants=COMMANDS_INV, properties=["Monotone"],
         tiers=("thorough",), heap="14g", workers=8),
    dict(name="commands-runs-long", module="CommandsTrace", kind="commands", validate=True, view=True, count=8000, tiers=("thorough",)),
    dict(name="readings-long", module="ReadingsTrace", kind="readings", validate=True, view=True, count=4000, invariants=["Past"], tiers=("thorough",)),
])


def session(ops, depth):
    return dict(Slots="{1, 2, 3, 4, 5, 6}", MaxChannels=3, Inputs="<-InputsA", Decades="<-DecadesA", Styles="<-StylesA", Frames="<-FramesA",
                Limit=36, Capacity=32, MaxOps=ops)


SESSION_INV = ["Acyclic", "Bounded", "Room"]
PLAN["C20"] = dict(jobs=[
    dict(name="queues", module="Queues", emit=False, view=False, constants=dict(Room=2, MaxSent=4, MaxCalls=2, Policy="<-Safe"),
         spec="AudioLive", invariants=["NeverWaits"], properties=["Returns", "OnlyUnread"]),
    dict(name="queues-long", module="Queues", emit=False, view=False, constants=dict(Room=3, MaxSent=7, MaxCalls=3, Policy="<-Safe"),
         spec="AudioLive", invariants=["NeverWaits"], properties=["Returns", "OnlyUnread"], tiers=("thorough",)),
    dict(name="session-sim", module="Session", kind="session", constants=session(999, 0), invariants=SESSION_INV, simulate=6000, depth=80),
    dict(name="session-long", module="Session", kind="session", constants=session(9999, 0), invariants=SESSION_INV, simulate=30000, depth=250,
         tiers=("thorough",)),
])


PLAN["C08"]["jobs"].append(notifiers("notifiers-sim", 6, 99, "{1, 2, 5}", 1, simulate=600, depth=40))
PLAN["C09"]["jobs"].append(notifiers("notifiers-sim", 6, 99, "{1, 2, 5}", 1, simulate=600, depth=40))

def heap(name, nodes, recorders, size, plays, ops, lively, **kw):
    ids = lambda a, b: "{%s}" % ", ".join(map(str, range(a, b + 1)))
    return dict(name=name, module="Heap", kind="heap", params={"nodes": nodes, "recorders": recorders}, invariants=["TypeOK", "Attached"],
                properties=["Settles", "Constant"], constants=dict(Nodes=ids(1, nodes), Recorders=ids(nodes + 1, nodes + recorders), Size=size, Pool=32,
                                                                   Plays="<-" + plays, MaxOps=ops, Lively=lively), **kw)


PLAN["C22"] = dict(jobs=[
    heap("heap", 1, 1, 4096, "PlaysA", 7, 0),
    heap("heap-sim", 4, 2, 4096, "PlaysB", 999, 1, simulate=1200, depth=40),
    heap("heap-long", 6, 3, 4096, "PlaysB", 999, 1, simulate=6000, depth=120, tiers=("thorough",)),
])

# Behaviours during which the clock on the wall goes on for some seconds
for prop, name in [("C03", "transport-sim"), ("C06", "sampler-sim"), ("C08", "recorder-sim"), ("C09", "envelope-sim-b"), ("C11", "mixer-3x8-sim"), ("C20", "session-sim")]:
    job = next(j for j in PLAN[prop]["jobs"] if j["name"] == name)
    PLAN[prop]["jobs"].append(dict(job, name=name.replace("-sim", "-pause"), simulate=64, depth=min(job["depth"], 40), params=dict(job.get("params", {}), pause=12)))
