"""Verdicts of guards on boxes: the real evaluation against exact reasoning over the box (P05, P06, P13, P23)."""
import copy

import z3

from pyvc.core import Unsupported
from pyvc.spec import CTX
from ._kit import MODES, Gen, Logic, enc, ev, rnd, src


def agent_of(cond, conts, discs, others, aid="car"):
    """agent whose only transition has the guard `cond`; its decision logic is read by the real parser"""
    from verse.agents.base_agent import BaseAgent
    L = Logic(conts, discs, [(cond, {"agent_mode": "B"})], [], others)
    a = BaseAgent(aid, code=L.code())
    return L, a


def verdict(call, agent, cond, cont, disc, lens, lane_map=None):
    """the verifier's evaluation of one guard: (satisfiable, contained)"""
    from verse.automaton.guard import GuardExpressionAst
    from verse.analysis.verifier import Verifier
    ge = call(GuardExpressionAst, [copy.deepcopy(cond)])
    cont, disc = dict(cont), dict(disc)
    up = call(ge.parse_any_all_new, cont, disc, lens)
    call(Verifier.apply_cont_var_updater, cont, up)
    if not call(ge.evaluate_guard_disc, agent, disc, cont, lane_map):
        return False, False
    if not call(ge.evaluate_guard_hybrid, agent, disc, cont, lane_map, False):
        return False, False
    s, c = call(ge.evaluate_guard_cont, agent, cont, lane_map, False)
    return bool(s), bool(c)


def dicts(conts, discs, boxes, modes, me, ids, others):
    """what the verifier senses: own and other agents' ranges and modes"""
    cont, disc = {}, {}
    for i, v in enumerate(conts):
        cont["ego." + v] = [boxes[me][0][i], boxes[me][1][i]]
    for i, d in enumerate(discs):
        disc["ego." + d] = modes[me][i]
    rest = [a for a in ids if a != me]
    if others and rest:
        for i, v in enumerate(conts):
            cont["others." + v] = [[boxes[a][0][i], boxes[a][1][i]] for a in rest]
        for i, d in enumerate(discs):
            disc["others." + d] = [modes[a][i] for a in rest]
    return cont, disc, {"others": len(rest)}


def encode(conts, discs, boxes, modes, me, ids, num=None):
    """z3 environment and box constraint for exact reasoning"""
    num = num or (lambda v: z3.RealVal(repr(float(v))) if not hasattr(v, "sort") else v)
    env, box, vs = {"others": []}, [], []

    def pack(a):
        d = {}
        for i, v in enumerate(conts):
            x = z3.Real(f"{a}!{v}")
            vs.append(x)
            box.extend([num(boxes[a][0][i]) <= x, x <= num(boxes[a][1][i])])
            d[v] = x
        d.update(zip(discs, modes[a]))
        return d
    for a in ids:
        p = pack(a)
        if a == me:
            env["ego"] = p
        else:
            env["others"].append(p)
    return env, box, vs


def exact(cond, conts, discs, boxes, modes, me, ids):
    """(some state satisfies, all states satisfy); None when the solver gives up"""
    env, box, vs = encode(conts, discs, boxes, modes, me, ids)
    f = enc(cond, env)
    out = []
    for g in (f, z3.Not(f)):
        s = z3.Solver()
        s.set("timeout", 5000)
        s.add(box + [g])
        out.append(s.check())
    if z3.unknown in out:
        return None
    return out[0] == z3.sat, out[1] == z3.unsat


class RecordingSolver:
    """z3.Solver by its mathematical meaning, for box bounds that are themselves variables"""
    bounds = ()

    def __init__(self):
        self.stack, self.cur = [], []

    def add(self, *fs):
        for f in fs:
            self.cur.append(f if z3.is_expr(f) else z3.BoolVal(bool(f)))

    def push(self):
        self.stack.append(list(self.cur))

    def pop(self):
        self.cur = self.stack.pop()

    def assertions(self):
        return list(self.cur)

    def check(self, *a):
        return z3.sat if CTX.branch(exists(z3.And(self.cur) if self.cur else z3.BoolVal(True), self.bounds)) else z3.unsat


def free(f, acc=None):
    acc = {} if acc is None else acc
    if z3.is_const(f) and f.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        acc[f.decl().name()] = f
    for c in f.children():
        free(c, acc)
    return acc


def exists(f, bounds):
    """quantifier-free equivalent of: some values of the variables other than the bounds satisfy f"""
    names = {b.decl().name() for b in bounds}
    vs = [v for n, v in sorted(free(f).items()) if n not in names]
    if not vs:
        return f
    try:
        r = z3.TryFor(z3.Then("simplify", "qe"), 20000)(z3.Exists(vs, f))[0]
    except z3.Z3Exception as e:
        raise Unsupported(f"quantifier elimination: {e}")
    return z3.simplify(z3.And(list(r) or [z3.BoolVal(True)]))
