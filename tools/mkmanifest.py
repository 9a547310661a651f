"""Writes /verif/MANIFEST.json."""
import json
TECH = "deterministic simulation with fault injection: seeded search over delivery, clock, environment and schedule faults on the real crate; "
WHAT = {
"C01": ("every call of every simulated history must return (panic, abort, unbounded work and time limits observed per call)",),
"C02": ("twin execution without the right checksums, damaged sentences must give the corrupted-sentence error",),
"C03": ("twin execution with the rejected sentences removed must agree",),
"C04": ("executable reference model of waiting parts; results compared with the unfragmented message in a new parser",),
"C05": ("executable reference model of waiting parts, identities that differ in one component or collide when concatenated",),
"C06": ("executable reference model of waiting parts under duplication and re-sending",),
"C07": ("executable reference model of satellite groups and ground truth of the transmitted satellites",),
"C08": ("executable reference model of type 24 pairs and ground truth of the transmitted halves",),
"C09": ("twin execution of each source alone",),
"C10": ("twin executions: new parser, and the history without the self-contained sentences",),
"C11": ("real threads under a seeded preemptive scheduler (basic-block preemption), each parser compared with its own single-threaded execution; deadlock detection",),
"C12": ("twin executions in pristine processes with other hash seeds, time zones, log levels, threads",),
"C13": ("heap accounting after every call against the number of waiting parts in the reference model",),
"C14": ("work measured in basic blocks and allocations: after a long history against a new parser, with huge numbers and lengths against small ones; work budget",),
"C15": ("simulated clock with steps and movement inside calls, simulator's own calendar as oracle",),
"C16": ("simulated clock with steps and year boundaries, simulator's own calendar as oracle",),
"C17": ("simulated clock with steps and century boundaries, simulator's own calendar as oracle",),
"C18": ("fault phase, then fault-free phase; progress within one message per identity, checked over the recorded history",),
"C19": ("restarts at seeded points; twin execution of a process that starts at the restart",),
"C20": ("ground truth: every returned value compared with what the simulated station put in",),
"C21": ("twin executions under other clock histories",),
}
NOTE = "Exploration: no counterexample among the seeded runs of this search (numbers in the evidence file); one seed is one exactly repeatable execution. Trusts the simulator's encoders, reference model and calendar, and sequential consistency of one simulated processor."
EXTRA = {
"C11": " Weak-memory effects are out of reach; the crate has no shared mutable state and no unsafe code.",
"C13": " The bound has a constant slack of 20 kB plus 1.5 kB and two sentence lengths per waiting part, so only growth beyond that is reported.",
"C14": " Compares counts, not time; constant factors up to 2 are tolerated.",
"C18": " Three recorded findings (a waiting last part) are excused exactly as predicted, see known-findings.txt.",
"C20": " One recorded finding (AIS type 27 layout) is excused exactly as predicted, see known-findings.txt.",
}
NA = {
"N01": "Pure function of one payload: no schedule, clock, fault, crash or history enters it, so simulation has nothing to decide. C20 compares the fields of the messages its stations send, within valid values only.",
"N02": "Pure function of one sentence's text: nothing for a scheduler or fault injector to vary. C20 compares the fields of the sentences its receivers send.",
"N03": "Pure table lookup on one number, no nondeterminism or fault involved. C20 compares the country of every vessel report its stations send.",
"N04": "Pure mappings from codes to variants and texts, no nondeterminism or fault involved.",
}
m = dict(version=1, setup_cmd="./check.sh build", checks=[], not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
  notes="One binary (/verif/sim) runs every check; ./check.sh rebuilds it with /repo's working tree. /repo needs no hooks: the clock, entropy, futexes, heap and logger are taken over by symbols the simulator binary defines, preemption points by compiler instrumentation. Replay: sim/target/release/nmea-sim replay FILE.")
for k, (w,) in WHAT.items():
    m["checks"].append(dict(property=k, quick_cmd="VERIF_TIER=quick ./check.sh " + k, thorough_cmd="VERIF_TIER=thorough ./check.sh " + k,
      evidence_file="evidence/%s.json" % k, technique=TECH + w, level="exploration", level_note=NOTE + EXTRA.get(k, "")))
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
