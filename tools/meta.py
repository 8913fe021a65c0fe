#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one table (props without a module are listed as not applicable)"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = "verse/analysis/"
ALL = "inputs"
P = []


def prop(pid, title, statement, over, quant, why, files, mech, level="proof", technique="", note=""):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, level=level, technique=technique, note=note))


T_PROOF = "contract-based deductive verification: contracts on the real Python functions, obligations generated from current source (pyvc) and discharged by z3; contracts also run on generated inputs"
T_BOUNDED = "contract-based deductive verification with bounds: the real Python code executed symbolically on all values of the state within stated bounds, obligations generated from current source and discharged by z3; contracts also run on generated inputs"
T_RUN = "contracts on the real Python functions with an independent reference semantics, checked on generated inputs (bounded stand-in for the obligations listed in the note)"

prop("P01", "A tube computed from simulations contains them and the initial set",
     "When the reachable tube of an agent is computed from simulations (DryVR, continuous or discrete time, global or piecewise sensitivity), every simulation it was computed from lies inside the tube, segment by segment over the time the tube covers, and its first segment contains the whole initial set. "
     "The tube's rows come as lower/upper pairs with the simulations' time stamps, and the tube is as long as the shortest simulation.",
     ["inputs"], "all initial boxes, dimensions, numbers and contents of simulation traces",
     "tests compare two example tubes; containment must hold for arbitrary traces, dimensions, zero-width boxes and traces of different length",
     [A + "dryvr.py", A + "dryvr_disc.py"], [("bloating", A + "dryvr.py:calc_bloated_tube"), ("bloating (discrete time)", A + "dryvr_disc.py:calc_bloated_tube_dryvr"), ("sampling", A + "dryvr.py:randomPoint")])
prop("P02", "Combining boxes and tubes loses no reachable state",
     "When several boxes or tubes are merged into one (the hull of a tube, the hull of several initial sets, the union of the tubes of several partitions, the tube of grouped initial sets), every state of every member is in the result at the same time offset, and no bound is wider than the widest member.",
     ["inputs"], "all numbers of members, lengths, dimensions and values", "the tests never look at merged sets; a wrong axis or index loses states silently",
     [A + "verifier.py", A + "incremental.py"], [("hull of a tube", A + "verifier.py:combine_rect"), ("hull of boxes", A + "incremental.py:combine_all"), ("union of tubes", A + "verifier.py:Verifier._union_traces"), ("grouped tubes", A + "verifier.py:Verifier.calculate_full_bloated_tube_simple")])
prop("P03", "Partitioning an initial set covers it",
     "When an initial box is split into partitions for verification, every state of the box lies in some partition, every partition is a box inside the original with equal width along the split dimensions, and dimensions that are not split keep their range.",
     ["inputs", "configurations"], "all boxes, numbers of partitions and choices of split dimensions", "no test uses partitioned verification",
     [A + "verifier.py"], [("partition", A + "verifier.py:Verifier._partition_rect")])
prop("P04", "Reset boxes contain every reset state",
     "In verification, when a transition's reset assigns affine expressions of the state, the box of states after the reset contains the reset of every state in the box before it; variables without an assignment keep their range, and the destination modes are exactly those the resets assign.",
     ["inputs", "programs"], "all reset expressions affine in each variable, all boxes, all subsets of reset variables", "tests use one or two reset expressions with point inputs",
     [A + "verifier.py"], [("box reset", A + "verifier.py:Verifier.apply_reset"), ("corner enumeration", A + "verifier.py:Verifier._get_combinations")])
prop("P05", "Guard verdicts on boxes of states are exact",
     "For a guard over continuous variables, modes and other agents, the verdict on a box of states says satisfiable if and only if some state of the box satisfies the guard, and contained if and only if all of them do; a guard ruled out by the discrete state is never reported satisfiable.",
     ["inputs", "programs"], "all guards built from linear comparisons, mode tests, and/or/not, any/all; all boxes; all modes", "tests evaluate a handful of guards; a wrong three-valued shortcut only shows for particular nestings",
     ["verse/automaton/guard.py"], [("discrete part", "verse/automaton/guard.py:GuardExpressionAst.evaluate_guard_disc"), ("continuous part", "verse/automaton/guard.py:GuardExpressionAst.evaluate_guard_cont"), ("solver encoding", "verse/automaton/guard.py:GuardExpressionAst._generate_z3_expression_node")])
prop("P06", "Lane-relative ranges of a box contain the value of every state",
     "When a guard uses a lane-relative quantity (position along or offset across a lane) on a box of positions, the range substituted for it contains the exact value at every position of the box.",
     ["inputs"], "all boxes of positions on straight and circular lanes", "tests exercise one map; interval corner cases (wrap-around of the angle, box around the centre) are not sampled",
     ["verse/automaton/guard.py", "verse/map/lane_segment.py"], [("longitudinal range", "verse/automaton/guard.py:GuardExpressionAst._handle_longitudinal_set"), ("lateral range", "verse/automaton/guard.py:GuardExpressionAst._handle_lateral_set")])
prop("P07", "Lane coordinates and world positions are inverse to each other",
     "On straight and circular lanes, converting lane coordinates (along, across) to a world position and back returns the same coordinates within the lane, and converting a world position to lane coordinates and back returns the same position; the heading is tangent to the lane.",
     ["inputs"], "all straight lanes and arcs (either direction), all coordinates on the lane", "no test converts coordinates back",
     ["verse/map/lane_segment.py"], [("straight lanes", "verse/map/lane_segment.py:StraightLane"), ("circular lanes", "verse/map/lane_segment.py:CircularLane")])
prop("P08", "Positions along multi-segment lanes accumulate and modes map to lanes",
     "On a lane made of several segments, the longitudinal coordinate of a position is the length of all earlier segments plus its coordinate in the segment used, which is, of the segments alongside which the position lies (with a small overlap before each start), the one nearest sideways; heading and offset across are those of this segment. A lane-change destination exists exactly when the map defines it, and it is the lane the map defines.",
     ["inputs", "configurations"], "all lanes of straight segments, all positions on them, all lane maps and mode names", "tests drive on one map along the middle of lanes",
     ["verse/map/lane.py", "verse/map/lane_map.py"], [("segment lookup", "verse/map/lane.py:Lane.get_lane_segment"), ("offsets", "verse/map/lane.py:Lane.get_longitudinal_position"), ("lane graph", "verse/map/lane_map.py:LaneMap.h")])
prop("P09", "Mixed-monotone tubes contain every trajectory",
     "For dynamics with a valid decomposition function, given by the agent or derived from its dynamics, the mixed-monotone reachable tube contains every trajectory starting in the initial box under every input in the input range, at every sample, and each segment covers the samples at both of its ends.",
     ["inputs"], "all decomposition functions that bound the dynamics, all initial sets, horizons and steps, all trajectories", "no stable test runs this method",
     [A + "mixmonotone.py"], [("continuous", A + "mixmonotone.py:calculate_bloated_tube_mixmono_cont"), ("discrete", A + "mixmonotone.py:calculate_bloated_tube_mixmono_disc")])
prop("P10", "Simulated executions are stitched without gaps",
     "In a simulation tree every node's trace follows the agents' dynamics from the node's state, ends at the sample where a transition or violated assertion occurs, and otherwise runs to the horizon; successors start at that time, agents that switch continue from their reset state and agents that do not switch continue their own trace unchanged.",
     ["inputs", "programs", "histories"], "all decision logics, numbers of agents, initial states, horizons, steps and depth limits; the direct-execution simulator as well", "tests check one two-agent scenario",
     [A + "simulator.py", "verse/scenario/scenario.py"], [("one step", A + "simulator.py:Simulator.simulate_one"), ("direct execution", A + "simulator.py:Simulator.simulate_simple")])
prop("P11", "Verification trees are stitched without losing states",
     "In a verification tree, each node's tubes contain the states reachable from its initial sets, up to the horizon or to where every state has taken a transition; each successor starts where its transition first becomes possible, the switching agent's initial sets contain the reset of every state at which the transition may happen (the k-th set for the k-th step), one agent switches per successor, and every other agent continues its own tube from where the successor starts.",
     ["inputs", "programs", "histories"], "all decision logics, agents, initial sets, horizons", "tests compare one tree to a recorded one",
     [A + "verifier.py"], [("one step", A + "verifier.py:Verifier.compute_full_reachtube_step")])
prop("P12", "Simulation takes exactly the enabled transitions and reports violated assertions",
     "At each sample of a simulation, an assertion is reported exactly when its precondition holds and its condition fails; the first sample with an enabled transition ends the node; and its successors are exactly the combinations of enabled transitions of the agents, with modes and reset values as the decision logic assigns them.",
     ["inputs", "programs"], "all decision logics (modes, resets, several enabled rules, several agents, assertions)", "tests use decision logics with one enabled rule at a time",
     [A + "simulator.py"], [("transition detection", A + "simulator.py:Simulator.get_transition_simulate"), ("rule evaluation", A + "simulator.py:check_sim_transitions")])
prop("P13", "Verification misses no transition and no assertion violation of any state",
     "At each step of a reachable tube that a node records, if some state enables a transition then that transition is explored from there, and if some state violates an assertion then the violation is reported and ends the node; a node only ends early when every state has left or no state can move on. "
     "Consequently every state a simulation visits, in every mode and with every violated assertion, appears in the verification tree of the same scenario.",
     ["inputs", "programs", "histories"], "all decision logics within the supported guards, all initial sets and all simulations from them", "tests never relate simulations to verification results",
     [A + "verifier.py"], [("transition detection", A + "verifier.py:Verifier.get_transition_verify_opt")])
prop("P14", "Exploration bookkeeping is consistent",
     "In every tree produced by simulation or verification, node ids are unique, heights count the transitions from the root, start times never decrease along a path, no node is explored beyond the depth limit or the time horizon, and every node reachable within the limits is explored.",
     ["inputs", "programs", "configurations"], "all scenarios, depth limits and horizons, sequential exploration", "tests look at one tree",
     [A + "simulator.py", A + "verifier.py", A + "analysis_tree.py"], [("work list", A + "simulator.py:Simulator.proc_result"), ("work list", A + "verifier.py:Verifier.proc_result")])
prop("P15", "A cached result is used only when it covers the request",
     "In incremental mode, a stored trace, tube or set of transitions is returned only for the same agent and modes (traces and tubes: and the same time horizon and time step), and only if its initial set contains the requested one (traces: its initial state is the requested one, to the cache's matching tolerance of 1e-6); if such an entry was stored, one is found.",
     ["inputs", "histories"], "all sequences of insertions and requests", "no stable test uses incremental mode",
     [A + "incremental.py"], [("traces", A + "incremental.py:SimTraceCache"), ("tubes", A + "incremental.py:TubeCache"), ("transitions", A + "incremental.py:ReachTubeCache")])
prop("P16", "Incremental runs give the results of runs from scratch",
     "With incremental mode on, running again after no change or after changes of initial states, modes or decision logics (guards, resets, assertions): a simulation gives the same tree as a run without incremental mode; a verification gives the tree that a run without incremental mode builds when each tube it computes is replaced by the one used, which contains it.",
     ["histories", "programs", "inputs"], "all sequences of runs with changed initial conditions, guards, resets or assertions", "no stable test uses incremental mode",
     [A + "incremental.py", A + "simulator.py", A + "verifier.py"], [("changed paths", A + "incremental.py:to_simulate"), ("reuse", A + "simulator.py:Simulator.get_transition_simulate"), ("reuse of tubes", A + "verifier.py:Verifier.compute_full_reachtube_step")])
prop("P17", "Trees survive being saved, and comparisons and queries are right",
     "Saving a tree and loading it gives a tree with the same nodes, parents, modes, traces and assertion results; a tree contains itself; a tree is reported to contain another only if it does; leaves, height and first-transition times are those of the tree.",
     ["inputs", "histories"], "all trees of simulations and of reachable sets", "no test saves, loads or compares trees",
     [A + "analysis_tree.py"], [("save/load", A + "analysis_tree.py:AnalysisTree.dump"), ("containment", A + "analysis_tree.py:AnalysisTree.contains")])
prop("P18", "Star set operations are exact",
     "A star set built from a box contains exactly the points of the box; an affine map, a translation or an intersection with a half-space or polytope contains exactly the images or members; its bounding box is the tightest one; emptiness, membership, sampling and combination of star sets agree with the points they contain.",
     ["inputs"], "all star sets, affine maps, half-spaces and points", "star tests need solvers that are not installed",
     ["verse/stars/starset.py"], [("star set", "verse/stars/starset.py:StarSet")])
prop("P19", "Transitions and assertions extracted from a decision logic are the program's",
     "For every state, the transitions extracted from a decision logic that are enabled include the assignments the program makes for each variable, every enabled one is made by the program on that state, and an extracted assertion fails exactly when the program's assertion fails.",
     ["programs", "inputs"], "all decision logics in the supported language: nested conditionals, else/elif, helpers, local variables, any/all with filters", "tests parse a few example controllers",
     ["verse/parser/parser.py"], [("branches", "verse/parser/parser.py:merge_if_val"), ("assertions", "verse/parser/parser.py:merge_assert"), ("reading", "verse/parser/parser.py:ControllerIR.from_env")])
prop("P20", "Sensing gives each agent its own state and every other agent's",
     "What the default sensor reports to an agent is exactly its own state and mode and, in the order of the agents of the scenario, the state and mode of every other agent, for points in simulation and for lower/upper bounds in verification.",
     ["inputs", "configurations"], "all numbers of agents, variables and values", "tests never inspect sensed values",
     ["verse/sensor/base_sensor.py"], [("sensing", "verse/sensor/base_sensor.py:BaseSensor.sense")])
prop("P21", "Runs start in the given initial set and keep the time grid",
     "A simulation starts in a state of the given initial set, deterministically for a fixed seed; traces produced by agents start at the given state at time 0, have strictly increasing time stamps one step apart, cover the horizon (to the nearest step, or at most one step beyond), and each sample is where the agent's dynamics, with its controller's output held over the step, lead from the previous one; vehicle controllers' outputs stay within their saturation limits.",
     ["inputs", "configurations"], "all initial boxes, seeds, horizons and steps; all bundled vehicle models", "tests run a few initial states",
     ["verse/agents/base_agent.py", "verse/utils/utils.py", "verse/scenario/scenario.py"], [("initial state", "verse/utils/utils.py:sample_rect"), ("time grid", "verse/agents/base_agent.py:BaseAgent.TC_simulate")])
prop("P22", "A reported fixed point is one",
     "When the fixed-point test reports that the reachable sets have converged, every composed state reachable in the last step is already reachable before; when it reports otherwise, some state is not. The set of states reported for a time window is exactly the states of the segments within the window.",
     ["inputs", "histories"], "all trees of reachable sets, all windows", "no test uses the fixed-point check",
     ["verse/utils/fixed_points.py"], [("reach at a time", "verse/utils/fixed_points.py:reach_at_fix"), ("containment", "verse/utils/fixed_points.py:contain_all_fix")])
prop("P23", "Quantified guards mean all or some of the other agents",
     "A guard or assertion quantified over the other agents (any, all) is, for any number of other agents including none, equivalent to the disjunction or conjunction over exactly those agents, with each agent's own state and mode.",
     ["programs", "inputs"], "all numbers of other agents, all quantified bodies, nested in any boolean structure", "tests have at most one other agent",
     ["verse/automaton/guard.py"], [("unrolling", "verse/automaton/guard.py:GuardExpressionAst.parse_any_all_new"), ("unrolling", "verse/automaton/guard.py:unroll_any_all_new")])
prop("P24", "Verification with star sets misses nothing",
     "With star sets as sets of states: a guard is reported satisfiable exactly when some member satisfies it and contained exactly when all do; the reset of every member is a member of the reset set; every state that may take a transition continues in a successor that contains it, violated assertions are reported, and the tube of a node covers every one of its initial sets.",
     ["programs", "inputs"], "all star sets, guards, resets and scenarios", "star tests need solvers that are not installed; one scenario",
     ["verse/analysis/verifier.py", "verse/automaton/guard.py", "verse/stars/starset.py"],
     [("guard", "verse/automaton/guard.py:GuardExpressionAst.evaluate_guard_cont"), ("reset", "verse/analysis/verifier.py:Verifier.apply_reset_stars"), ("tubes", "verse/analysis/verifier.py:Verifier.calculate_full_bloated_tube_stars")])

NA = {}
NOTES = json.load(open(os.path.join(HERE, "tools", "notes.json"))) if os.path.exists(os.path.join(HERE, "tools", "notes.json")) else {}


def main():
    have = [p for p in P if os.path.exists(os.path.join(HERE, "props", p["pid"] + ".py"))]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["pid"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["quant"]},
                                "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
    checks, na = [], []
    for p in P:
        n = NOTES.get(p["pid"])
        if p in have and n:
            checks.append({"property": p["pid"], "quick_cmd": f"/opt/venv/bin/python check.py {p['pid']} quick", "thorough_cmd": f"/opt/venv/bin/python check.py {p['pid']} thorough",
                           "technique": T_PROOF if n["level"] == "proof" else T_BOUNDED if n.get("bounded") else T_RUN, "level": n["level"], "level_note": n["note"]})
        else:
            na.append({"property": p["pid"], "reason": (n or {}).get("reason", "no check yet: contracts for this property are not finished")})
    man = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c \"import z3, numpy\"", "checks": checks, "not_applicable": na,
           "notes": "All checks run check.py, which generates obligations from /repo's current source on every run (pyvc, this repository) and discharges them with z3. /repo carries fix: commits only; no hooks."}
    json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks;", [x["property"] for x in na], "without")


main()


def design():
    t = open(os.path.join(HERE, "tools", "design.tmpl.md")).read()
    det = json.load(open(os.path.join(HERE, "tools", "design_props.json")))
    rows = []
    for p in P:
        n = NOTES.get(p["pid"])
        ok = n and os.path.exists(os.path.join(HERE, "props", p["pid"] + ".py"))
        rows.append(f"### {p['pid']} {p['title']}\n\n" + (f"Level {n['level']}{' (bounded)' if n.get('bounded') else ''}. {n['note']}\n" if ok else f"Not applicable: {(n or {}).get('reason', 'no check yet')}\n")
                    + ("\n" + det[p["pid"]] + "\n" if p["pid"] in det else ""))
    k = json.load(open(os.path.join(HERE, "known-findings.json")))
    fnd = "\n".join(f"* {x['id']} ({x['property']}, contract `{x['contract']}`): {x['what']}" for x in k)
    sd = json.load(open(os.path.join(HERE, "tools", "seeded.json")))
    rows2 = ["| bug | property | caught by |", "|---|---|---|"] + [f"| {i} | {v[0]} | {v[1]} |" for i, v in sorted(sd.items())]
    open(os.path.join(HERE, "DESIGN.md"), "w").write(t.replace("@@PROPS@@", "\n".join(rows)).replace("@@FINDINGS@@", fnd).replace("@@SEEDED@@", "\n".join(rows2)))


design()
