"""What each check explores: models and their bounds, replays, recordings."""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))
TITLE = {}
for _l in open(os.path.join(HERE, "properties.jsonl")):
    if _l.strip():
        _d = json.loads(_l)
        TITLE[_d["id"]] = _d["title"]


def emitset(emit):
    return "= {" + ", ".join('"%s"' % e for e in emit) + "}"


def jin(nodes, depth, emit, replay, names="Names2", elems="Elems2", indices="Small", values="Values2",
        invariants=("PathsExact",), properties=("FailuresChangeNothing", "RepliesDefined", "StaysWellFormed"),
        minimum=600, timeout=700):
    """abstract documents as the states of the edit machine"""
    return {"module": "MCJin", "spec": "MCSpec", "view": "DocView", "expect_min": minimum, "timeout": timeout,
            "constants": {"Names": "<- " + names, "PathElems": "<- " + elems, "Indices": "<- " + indices,
                          "Values": "<- " + values, "MaxNodes": "= %d" % nodes, "MaxDepth": "= %d" % depth,
                          "Emit": emitset(emit)},
            "invariants": ["TypeOK"] + list(invariants) + ["Emitted"],
            "properties": list(properties), "replay": replay}


def texts(tokens, gaps, letter, emit, minimum=300, scalars=None, names=None, gap=None, new="NewObj", timeout=700):
    """concrete texts written token by token by the grammar"""
    return {"module": "Grammar", "spec": "Spec", "expect_min": minimum, "timeout": timeout,
            "constants": {"Scalars": "<- Scalars" + (scalars or letter), "MemberNames": "<- Names" + (names or letter),
                          "Gaps": "<- Gaps" + (gap or letter), "MaxTokens": "= %d" % tokens, "MaxGaps": "= %d" % gaps,
                          "NewText": "<- " + new, "NewName": "<- NewKey", "Emit": emitset(emit)},
            "invariants": ["ParserAgrees", "BalanceAgrees", "RenderAgrees", "SpansAgree", "Emitted"],
            "replay": [("texts", [])]}


def scalars(seeds, alphabet, length, changes, minimum=1000):
    """scalar texts: all short ones over an alphabet, and changes of seeds"""
    return {"module": "Texts", "spec": "Spec", "expect_min": minimum,
            "constants": {"Seeds": "<- " + seeds, "Alphabet": "<- " + alphabet, "MaxLen": "= %d" % length,
                          "Changes": "= %d" % changes, "Emit": "= TRUE"},
            "invariants": ["NumberAgrees", "IntAgrees", "IntIsNumber", "LaxHoldsNumbers", "FormatIdempotent",
                           "QuoteIdempotent", "FormatKeeps", "ClassifiesExactly", "Emitted"],
            "replay": [("typed", [])]}


PLAN = {}
EVENTS = {"quick": 8000, "thorough": 200000}


def plan(pid, quick, thorough, events=True, drive=None):
    PLAN[pid] = {}
    for tier, models in (("quick", quick), ("thorough", thorough)):
        PLAN[pid][tier] = {"models": models}
        if events:
            PLAN[pid][tier]["events"] = EVENTS[tier]
        if drive:
            PLAN[pid][tier]["drive"] = drive(tier)


# ---- lookups and everything that reads
def reads(pid, emit, quick, thorough, nodes=4, reps=8, texts_emit=None):
    te = texts_emit or emit
    plan(pid,
         [jin(nodes, 3, emit, [("reads", ["-reps", reps])], values="Values4", minimum=700 if nodes > 3 else 50)]
         + [texts(t, g, l, te) for t, g, l in quick],
         [jin(5, 4, emit, [("reads", ["-reps", reps * 2])], values="Values4", minimum=5000),
          jin(4, 4, emit, [("reads", ["-reps", reps * 4])], names="Names3", values="Values4", minimum=1000)]
         + [texts(t, g, l, te) for t, g, l in thorough])


DEEP = [(9, 2, "A"), (9, 2, "B"), (9, 1, "C"), (8, 5, "A"), (12, 1, "A")]
MID = [(9, 2, "A"), (9, 2, "B"), (9, 1, "C"), (8, 4, "A"), (11, 0, "A")]
reads("C01", ["Hit"], [(9, 1, "A"), (8, 1, "B"), (8, 1, "C")], DEEP)
reads("C02", ["Hit", "Miss"], [(8, 1, "B"), (9, 0, "A")], MID, reps=2)
reads("C12", ["Hit", "Miss", "Tree"], [(9, 1, "A"), (8, 1, "C")], MID, reps=3)
reads("C14", ["Hit", "Miss"], [(8, 1, "A"), (8, 1, "B")], MID, reps=2)
reads("C15", ["Hit", "Miss"], [(8, 1, "A"), (8, 1, "B"), (8, 0, "C")], MID, reps=3)
reads("C16", ["Hit", "Miss"], [(9, 1, "A"), (8, 1, "C")], MID, reps=3)
reads("C22", ["Hit", "Walk"], [(9, 1, "A"), (8, 1, "B"), (8, 1, "C")], DEEP)
reads("C09", ["Hit"], [(8, 1, "A")], [(9, 2, "B"), (8, 3, "A")], nodes=3, reps=3)


# ---- formatting
def formats(tokens, gaps, letter, gap=None):
    return texts(tokens, gaps, letter, ["Format"], gap=gap)


plan("C19", [formats(8, 2, "A", "B"), formats(9, 1, "C"), formats(9, 1, "B")],
     [formats(9, 2, "B"), formats(10, 1, "C"), formats(8, 5, "A"), formats(8, 4, "A", "C"), formats(12, 1, "A")])

# ---- damaged texts
def cuts(tokens, gaps, letter):
    return texts(tokens, gaps, letter, ["Cut"], minimum=300)


def garbage(seeds, alphabet, length, changes, minimum=1000):
    return {"module": "Bytes", "spec": "Spec", "expect_min": minimum, "view": "TextView",
            "constants": {"Seeds": "<- " + seeds, "Alphabet": "<- " + alphabet, "MaxLen": "= %d" % length,
                          "Changes": "= %d" % changes, "Emit": "= TRUE"},
            "invariants": ["ParserTotal", "BalanceOfCanon", "Emitted"], "replay": [("texts", [])]}


plan("C23", [garbage("SeedsAll", "AllBytes", 4, 1), garbage("NoSeeds", "Brackets", 6, 0), garbage("NoSeeds", "Objects", 5, 0),
             garbage("SeedsAll", "OddBytes", 3, 1, 300), cuts(7, 1, "A"), cuts(7, 0, "B")],
     [garbage("NoSeeds", "AllBytes", 5, 0), garbage("SeedsA", "Structure", 1, 2), garbage("SeedsB", "Structure", 1, 2),
      garbage("NoSeeds", "Brackets", 8, 0), garbage("NoSeeds", "Objects", 7, 0), garbage("NoSeeds", "Arrays", 7, 0),
      garbage("SeedsAll", "OddBytes", 5, 1), cuts(9, 1, "A"), cuts(8, 1, "B"), cuts(9, 0, "C")])



# ---- single edits
def edit(pid, ops, frames, indices="Small", letters="AB"):
    plan(pid,
         [jin(4, 3, ops, [("edits", ["-reps", 6])], indices=indices, invariants=["PathsExact", "FailureIsStutter"] + frames),
          texts(9, 1, letters[0], ops), texts(8, 1, letters[1], ops)],
         [jin(6, 4, ops, [("edits", ["-reps", 6])], indices=indices, minimum=40000,
              invariants=["PathsExact", "FailureIsStutter"] + frames),
          jin(4, 4, ops, [("edits", ["-reps", 40])], names="Names3", values="Values4", indices=indices,
              invariants=["PathsExact"] + frames),
          texts(9, 2, "A", ops), texts(9, 1, "B", ops), texts(9, 1, "C", ops), texts(8, 4, "A", ops),
          texts(9, 1, "A", ops, gap="B", new="One")])


edit("C03", ["Set"], ["SetFrame"], letters="AB")
edit("C04", ["SetKey"], ["SetKeyFrame"], letters="BA")
edit("C05", ["AddKeyValue"], ["AddKeyValueFrame"], letters="BC")
edit("C06", ["Add", "Insert"], ["AddFrame", "InsertFrame"], indices="Signed", letters="AC")
edit("C07", ["Delete"], ["DeleteFrame"], letters="AB")
edit("C08", ["Store"], ["StoreFrame"], letters="BA")


# ---- histories
def walks(nodes, apis, steps, depth=3, pairs=False, names="Names2", values="Values2", minimum=600):
    return jin(nodes, depth, ["Step"],
               [("walks", ["-api", apis] + (["-pairs"] if pairs else ["-steps", steps]))],
               names=names, values=values, minimum=minimum)


def histories(pid, api):
    plan(pid, [walks(4, api, 8), walks(3, api, 0, pairs=True, minimum=50)],
         [walks(5, api, 14, minimum=5000), walks(4, api, 40, depth=4), walks(4, api, 20, names="Names3", values="Values4"),
          walks(3, api, 0, depth=3, pairs=True, values="Values4", minimum=100)])


histories("C10", "I")
histories("C11", "J")
histories("C13", "P")
PLAN["C09"]["quick"]["models"].append(walks(3, "IJP", 10, minimum=50))
PLAN["C09"]["thorough"]["models"].append(walks(4, "IJP", 20))

# ---- typed getters, typed writers, builders
plan("C17", [scalars("SeedsNumbers", "BytesNumbers", 5, 1), scalars("SeedsWords", "BytesWords", 3, 1)],
     [scalars("SeedsNumbers", "BytesNumbers", 6, 2), scalars("SeedsWords", "BytesWords", 5, 1), scalars("NoSeeds", "BytesShort", 6, 0),
      scalars("SeedsWords", "BytesNumbers", 2, 2)])
plan("C18", [scalars("SeedsNumbers", "BytesNumbers", 4, 1), scalars("SeedsWords", "BytesWords", 4, 1)],
     [scalars("SeedsNumbers", "BytesNumbers", 6, 2), scalars("SeedsWords", "BytesWords", 5, 1), scalars("NoSeeds", "BytesShort", 6, 0)])


def build(args, n, reps, minimum=100):
    return {"module": "Build", "spec": "Spec", "expect_min": minimum,
            "constants": {"Args": "<- " + args, "MaxArgs": "= %d" % n, "Emit": "= TRUE"},
            "invariants": ["WellFormed", "ReadsBack", "LikeAdds", "Emitted"], "properties": ["Grows"],
            "replay": [("build", ["-reps", reps])]}


HOMOGENEOUS = [("Raws", 3), ("Few", 5), ("FewFloats", 5), ("FewBools", 7), ("StringsFew", 4)]
plan("C20", [build("Anys", 2, 4), build("OneOfEach", 4, 2)] + [build(a, n, 3) for a, n in HOMOGENEOUS] +
     [scalars("SeedsNumbers", "BytesNumbers", 4, 1), scalars("SeedsWords", "BytesWords", 4, 1)],
     [build("Anys", 3, 4), build("OneOfEach", 5, 3)] + [build(a, n + 1, 5) for a, n in HOMOGENEOUS] +
     [scalars("SeedsNumbers", "BytesNumbers", 6, 2), scalars("SeedsWords", "BytesWords", 5, 1), scalars("NoSeeds", "BytesShort", 6, 0)])


# ---- Schemes
def scheme(ids, keys, starts, steps, reps, minimum=1000):
    return {"module": "Scheme", "spec": "Spec", "expect_min": minimum,
            "constants": {"Ids": "<- " + ids, "Keys": "<- " + keys, "Starts": "<- " + starts, "MaxSteps": "= %d" % steps,
                          "Docs": "<- NoDocs", "Emit": '= {"History"}'},
            "invariants": ["NoDuplicates", "Emitted"], "properties": ["Independent", "SavedStays", "OrderStays"],
            "replay": [("schemes", ["-reps", reps])]}


def project(keys, docs, steps, reps, minimum=1000):
    return {"module": "Scheme", "spec": "Spec", "expect_min": minimum, "view": "ListsView",
            "constants": {"Ids": "<- One", "Keys": "<- " + keys, "Starts": "<- Empty", "MaxSteps": "= %d" % steps,
                          "Docs": "<- " + docs, "Emit": '= {"Project"}'},
            "invariants": ["NoDuplicates", "ProjectionExact", "Emitted"],
            "replay": [("schemes", ["-reps", reps])]}


def memory(ids, keys, steps, careful="TRUE", copies="TRUE", fail=False):
    return {"module": "SchemeMem", "spec": "Spec", "must_fail": fail,
            "constants": {"Ids": "<- " + ids, "Keys": "<- " + keys, "Starts": "<- Starts2", "MaxSteps": "= %d" % steps,
                          "Careful": "= " + careful, "CopyArgs": "= " + copies},
            "invariants": ["HeldStay"], "properties": ["Refines"]}


plan("C21",
     [memory("Two", "KeysAB", 4), memory("One", "KeysABC", 5, careful="FALSE", fail=True), memory("Two", "KeysAB", 3, copies="FALSE", careful="FALSE", fail=True),
      scheme("Two", "KeysAB", "StartsAB", 3, 3), scheme("Two", "KeysAB", "StartA", 4, 1), scheme("One", "KeysABZ", "StartsABZ", 4, 3),
      project("KeysABZ", "SmallDocs", 5, 2)],
     [memory("Two", "KeysAB", 5), memory("One", "KeysABC", 6), memory("One", "KeysABC", 5, careful="FALSE", fail=True),
      scheme("Two", "KeysAB", "StartsAB", 4, 4), scheme("One", "KeysABZ", "StartsABZ", 6, 2), scheme("Three", "KeysAB", "StartsBA", 4, 2),
      project("KeysABZ", "MoreDocs", 7, 6)])

# ---- independent calls
def calls(procs, kinds, edits, steps, opened, minimum=500, nodes=8, free=1, sim=0):
    m = {"module": "Calls", "spec": "Spec", "expect_min": minimum, "race": True,
         "constants": {"Procs": "<- " + procs, "Kinds": "<- " + kinds, "Edits": "<- " + edits, "MaxSteps": "= %d" % steps,
                       "MaxOpen": "= %d" % opened, "MaxNodes": "= %d" % nodes, "Emit": '= {"Schedule"}',
                       "Random": "= " + ("TRUE" if sim else "FALSE")},
         "invariants": ["Mine", "Alive", "Emitted"], "replay": [("calls", ["-free", free])]}
    if sim:
        m.update(simulate=sim, depth=steps + 1)
    return m


def callsmem(procs, n, work="call", out="fresh", fail=False):
    return {"module": "CallsMem", "spec": "Spec", "must_fail": fail,
            "constants": {"Procs": "= {%s}" % ", ".join(str(i + 1) for i in range(procs)), "Contents": "= {1, 2}", "MaxCalls": "= %d" % n,
                          "Work": '= "%s"' % work, "Out": '= "%s"' % out},
            "invariants": ["RepliesRight", "HeldStay", "RaceFree"]}


CONTROLS = [callsmem(2, 3, work="package", fail=True), callsmem(1, 3, work="client", fail=True),
            callsmem(2, 3, work="object", fail=True), callsmem(2, 3, out="package", fail=True)]
plan("C24",
     [callsmem(2, 5)] + CONTROLS +
     [calls("Two", "KindsRead", "Edits3", 4, 1), calls("Two", "KindsEdit", "Edits3", 3, 1),
      calls("Two", "KindsMix", "Edits3", 3, 2), calls("Three", "KindsAll", "Edits9", 16, 2, sim=150)],
     [callsmem(3, 5)] + CONTROLS +
     [calls("Three", "KindsRead", "Edits3", 4, 2, free=2), calls("Two", "KindsRead", "Edits3", 5, 2),
      calls("Two", "KindsEdit", "Edits9", 3, 1, free=2), calls("Two", "KindsMix", "Edits9", 3, 2), calls("Two", "KindsMix", "Edits3", 4, 2),
      calls("Three", "KindsAll", "Edits9", 24, 2, sim=1500)],
     events=False, drive=lambda tier: [{"record": "record", "race": True, "events": EVENTS[tier]}])


# ---- errors
def errors(pieces, n, design="end", minimum=300):
    return {"module": "Errors", "spec": "Spec", "expect_min": minimum, "must_fail": design != "end", "view": "TextView",
            "constants": {"Pieces": "<- " + pieces, "MaxPieces": "= %d" % n, "Design": '= "%s"' % design,
                          "Emit": "= " + ("TRUE" if design == "end" else "FALSE")},
            "invariants": ["Exact", "Distinct", "Emitted"], "replay": [("errors", [])] if design == "end" else []}


plan("C25", [errors("PiecesFew", 2, "found"), errors("PiecesMany", 3)],
     [errors("PiecesFew", 2, "found"), errors("PiecesMany", 4), errors("PiecesFew", 5)])


# ---- wide containers
def sizes(wide, most, reps, api="IJP", steps=10):
    return {"module": "Sizes", "spec": "Spec", "expect_min": 300, "timeout": 700,
            "constants": {"MaxWide": "= %d" % most, "Wide": "<- " + wide, "Marks": "<- MarksA", "Emit": "= TRUE"},
            "invariants": ["Grown", "SplicesExact", "Moves", "Lookups", "Emitted"],
            "replay": [("sizes", ["-reps", reps, "-api", api, "-steps", steps])]}


for pid in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17",
            "C19", "C21", "C22"):
    api = {"C10": "I", "C11": "J", "C13": "P"}.get(pid, "IJP")
    PLAN[pid]["quick"]["models"].append(sizes("WideA", 300, 24, api))
    PLAN[pid]["thorough"]["models"].append(sizes("WideB", 1026, 20, api, 60))

NOT_APPLICABLE = {}
NOTE = {"*": "Exhaustive for the abstract machine within the constants given in the evidence; the code is compared with it on every emitted vector in several layouts and concretizations and on seeded random sessions. Trusts TLC, the Go toolchain and the driver's rendering and logging."}
