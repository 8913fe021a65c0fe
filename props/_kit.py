"""Random decision logics with an independent semantics, used by the run-time part of several properties.

A logic is kept as plain tuples; it is rendered to a controller program for the code under test, and
evaluated here directly (points) or through z3 over exact rationals (boxes)."""
import itertools
import operator
from fractions import Fraction

import numpy as np
import z3

OPS = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge, "==": operator.eq, "!=": operator.ne}

HEAD = """from enum import Enum, auto
import copy
from typing import List
class AgentMode(Enum):
    A = auto()
    B = auto()
    C = auto()
class TagMode(Enum):
    P = auto()
    Q = auto()
class State:
%s
def decisionLogic(%s):
    output = copy.deepcopy(ego)
%s
    return output
"""
MODES = {"agent_mode": ("AgentMode", ["A", "B", "C"]), "tag_mode": ("TagMode", ["P", "Q"])}


# ------------------------------------------------------------------ expressions
def src(e):
    k = e[0]
    if k == "const":
        return repr(e[1])
    if k == "var":
        return f"{e[1]}.{e[2]}"
    if k in ("+", "-", "*"):
        return f"({src(e[1])} {k} {src(e[2])})"
    if k == "neg":
        return f"(-{src(e[1])})"
    if k == "pow":
        return f"({src(e[1])} ** {e[2]})"
    if k == "cmp":
        return f"{src(e[2])} {e[1]} {src(e[3])}"
    if k == "mode":
        return f"{e[1]}.{e[2]} {'==' if e[4] else '!='} {MODES[e[2]][0]}.{e[3]}"
    if k in ("and", "or"):
        return "(" + f" {k} ".join(src(x) for x in e[1]) + ")"
    if k == "not":
        return f"(not {src(e[1])})"
    if k in ("any", "all"):
        return f"{k}({src(e[1])} for o in others)" if len(e) == 2 else f"{k}({src(e[1])} for o in others if {src(e[2])})"
    raise ValueError(k)


def ev(e, env):
    """value at a point; env: {"ego": {...}, "others": [{...}], "o": {...}}"""
    k = e[0]
    if k == "const":
        return e[1]
    if k == "var":
        return env[e[1]][e[2]]
    if k in ("+", "-", "*"):
        a, b = ev(e[1], env), ev(e[2], env)
        return a + b if k == "+" else a - b if k == "-" else a * b
    if k == "neg":
        return -ev(e[1], env)
    if k == "pow":
        return ev(e[1], env) ** e[2]
    if k == "cmp":
        return OPS[e[1]](ev(e[2], env), ev(e[3], env))
    if k == "mode":
        return (env[e[1]][e[2]] == e[3]) == e[4]
    if k == "and":
        return all(ev(x, env) for x in e[1])
    if k == "or":
        return any(ev(x, env) for x in e[1])
    if k == "not":
        return not ev(e[1], env)
    if k in ("any", "all"):
        vals = []
        for o in env["others"]:
            en = dict(env, o=o)
            if len(e) == 3 and not ev(e[2], en):
                continue
            vals.append(ev(e[1], en))
        return any(vals) if k == "any" else all(vals)
    raise ValueError(k)


def enc(e, env, eps=None, pos=True):
    """z3 term; env values are z3 reals (continuous) or mode names. With eps: strengthened by that margin (weakened when pos is False)"""
    k = e[0]
    if k == "const":
        return z3.Q(*Fraction(e[1]).as_integer_ratio()) if not isinstance(e[1], bool) else z3.BoolVal(e[1])
    if k == "var":
        return env[e[1]][e[2]]
    if k in ("+", "-", "*"):
        a, b = enc(e[1], env), enc(e[2], env)
        return a + b if k == "+" else a - b if k == "-" else a * b
    if k == "neg":
        return -enc(e[1], env)
    if k == "pow":
        b = enc(e[1], env)
        r = b
        for _ in range(e[2] - 1):
            r = r * b
        return r
    if k == "cmp":
        l, r = enc(e[2], env), enc(e[3], env)
        if eps is None:
            return OPS[e[1]](l, r)
        d = -eps if pos else eps
        if e[1] in ("<", "<="):
            return l <= r + d
        if e[1] in (">", ">="):
            return l >= r - d
        near = z3.And(l - r <= eps, r - l <= eps)
        if e[1] == "==":
            return z3.BoolVal(False) if pos else near
        return z3.Not(near) if pos else z3.BoolVal(True)
    if k == "mode":
        return z3.BoolVal((env[e[1]][e[2]] == e[3]) == e[4])
    if k == "and":
        return z3.And([enc(x, env, eps, pos) for x in e[1]])
    if k == "or":
        return z3.Or([enc(x, env, eps, pos) for x in e[1]])
    if k == "not":
        return z3.Not(enc(e[1], env, eps, not pos))
    if k in ("any", "all"):
        vals = []
        for o in env["others"]:
            en = dict(env, o=o)
            t = enc(e[1], en, eps, pos)
            if len(e) == 3:
                c = enc(e[2], en, eps, pos if k == "any" else not pos)
                t = z3.And(c, t) if k == "any" else z3.Or(z3.Not(c), t)
            vals.append(t)
        return z3.Or(vals) if k == "any" else z3.And(vals)
    raise ValueError(k)


def vars_of(e):
    if not isinstance(e, (tuple, list)):
        return set()
    if isinstance(e, tuple) and e and e[0] == "var":
        return {(e[1], e[2])}
    return set().union(*[vars_of(x) for x in e]) if e else set()


# ------------------------------------------------------------------ generation
def rnd(rng, lo=-3, hi=3, q=4):
    return rng.randint(int(lo * q), int(hi * q)) / q


class Gen:
    def __init__(self, rng, conts=("x", "y"), discs=("agent_mode",), others=False, filt=False):
        self.rng, self.conts, self.discs, self.others, self.filt = rng, list(conts), list(discs), others, filt

    def num(self, who="ego", depth=1):
        r = self.rng.random()
        if depth and r < 0.35:
            k = self.rng.choice(["+", "-", "*"])
            if k == "*":
                return ("*", ("const", rnd(self.rng, -2, 2, 2)), self.num(who, 0))
            return (k, self.num(who, depth - 1), self.num(who, depth - 1))
        if r < 0.8:
            return ("var", who, self.rng.choice(self.conts))
        return ("const", rnd(self.rng))

    def cmp(self, who="ego", ops=("<", "<=", ">", ">=")):
        l = self.num(who, 1)
        if not vars_of(l):
            l = ("var", who, self.rng.choice(self.conts))
        r = ("const", rnd(self.rng, -4, 6)) if self.rng.random() < 0.75 else self.num("ego", 0)
        if self.rng.random() < 0.2:
            l, r = r, l
        return ("cmp", self.rng.choice(list(ops)), l, r)

    def mode(self, who="ego"):
        d = self.rng.choice(self.discs)
        return ("mode", who, d, self.rng.choice(MODES[d][1]), self.rng.random() < 0.75)

    def atom(self, who="ego"):
        r = self.rng.random()
        if r < 0.3 and self.discs:
            return self.mode(who)
        return self.cmp(who)

    def cond(self, depth=2, who="ego"):
        r = self.rng.random()
        if depth == 0 or r < 0.35:
            if self.others and who == "ego" and self.rng.random() < 0.4:
                k = self.rng.choice(["any", "all"])
                body = self.cond(min(depth, 1), "o")
                if self.filt and self.rng.random() < 0.4:
                    return (k, body, self.atom("o"))
                return (k, body)
            return self.atom(who)
        if r < 0.6:
            return ("and", [self.cond(depth - 1, who) for _ in range(self.rng.randint(2, 3))])
        if r < 0.85:
            return ("or", [self.cond(depth - 1, who) for _ in range(self.rng.randint(2, 3))])
        return ("not", self.cond(depth - 1, who))

    def reset(self):
        r = self.rng.random()
        if r < 0.3:
            return ("const", rnd(self.rng))
        if r < 0.8:
            return ("+", ("var", "ego", self.rng.choice(self.conts)), ("const", rnd(self.rng, -1, 1)))
        return self.num("ego", 1)

    def rules(self, n, depth=1, modes=1.0, resets=0.4):
        out = []
        for _ in range(n):
            ass = {}
            for d in self.discs:
                if self.rng.random() < modes / len(self.discs) or (not ass and d == self.discs[-1] and self.rng.random() < 0.7):
                    ass[d] = self.rng.choice(MODES[d][1])
            for c in self.conts:
                if self.rng.random() < resets / len(self.conts) * 2:
                    ass[c] = self.reset()
                    if ass[c] == ("var", "ego", c):  # an assignment of the current value is no transition
                        ass[c] = ("const", rnd(self.rng))
            if not ass:
                ass[self.discs[0]] = self.rng.choice(MODES[self.discs[0]][1])
            out.append((self.cond(depth), ass))
        return out

    def asserts(self, n, depth=1):
        return [(self.cond(1) if self.rng.random() < 0.5 else None, self.cond(depth), f"l{k}") for k in range(n)]


class Logic:
    """rules: [(cond, {var: expr | mode name})]; asserts: [(pre | None, cond, label)]"""

    def __init__(self, conts, discs, rules, asserts, others, static=False):
        self.conts, self.discs, self.rules, self.asserts, self.others = list(conts), list(discs), rules, asserts, others

    def code(self):
        fields = "\n".join([f"    {c}: float" for c in self.conts] + [f"    {d}: {MODES[d][0]}" for d in self.discs])
        body = []
        for pre, c, lab in self.asserts:
            if pre is None:
                body.append(f"    assert {src(c)}, '{lab}'")
            else:
                body += [f"    if {src(pre)}:", f"        assert {src(c)}, '{lab}'"]
        for c, ass in self.rules:
            body.append(f"    if {src(c)}:")
            for v, e in ass.items():
                body.append(f"        output.{v} = " + (f"{MODES[v][0]}.{e}" if v in self.discs else src(e)))
        args = "ego: State" + (", others: List[State]" if self.others else "")
        return HEAD % (fields, args, "\n".join(body))

    # point semantics
    def failed(self, env):
        return [lab for pre, c, lab in self.asserts if (pre is None or ev(pre, env)) and not ev(c, env)]

    def outcomes(self, env):
        """[(dest, state)] reachable by choosing one enabled rule per assigned variable; [] when no rule is enabled"""
        opts = {}
        for c, ass in self.rules:
            if ev(c, env):
                for v, e in ass.items():
                    opts.setdefault(v, []).append(e if v in self.discs else ev(e, env))
        if not opts:
            return []
        out = []
        ego = env["ego"]
        for combo in itertools.product(*opts.values()):
            new = dict(ego)
            new.update(zip(opts.keys(), combo))
            o = ([new[d] for d in self.discs], [new[c] for c in self.conts])
            if o not in out:
                out.append(o)
        return out

    def execute(self, env):
        """plain execution of the program: (failed label | None, dest, state)"""
        for pre, c, lab in self.asserts:
            if (pre is None or ev(pre, env)) and not ev(c, env):
                return lab, None, None
        new = dict(env["ego"])
        for c, ass in self.rules:
            if ev(c, env):
                for v, e in ass.items():
                    new[v] = e if v in self.discs else ev(e, env)
        return None, [new[d] for d in self.discs], [new[c] for c in self.conts]


# ------------------------------------------------------------------ agents with closed-form motion
def make_agent(W, aid):
    from verse.agents.base_agent import BaseAgent

    class TAgent(BaseAgent):
        def __init__(self):
            super().__init__(aid, code=W.logic[aid].code())

        def TC_simulate(self, mode, init, horizon, step, lane_map=None):
            W.log.append((aid, tuple(mode), list(init), horizon, step))
            return W.flow(aid, tuple(mode), init, horizon, step)
    return TAgent()


def flow(vel, mode, init, horizon, step):
    n = int(np.floor(horizon / step + 0.5 + 1e-9)) if horizon > 0 else 0
    v = vel[tuple(mode)]
    return np.array([[k * step] + [float(init[d]) + v[d] * (k * step) for d in range(len(init))] for k in range(n + 1)])


def sym_flow(aid, mode, init, horizon, step):
    """arbitrary dynamics: an uninterpreted function of the initial state per agent, mode, dimension and sample"""
    from pyvc.core import mk, R, term
    n = int(np.floor(horizon / step + 0.5 + 1e-9)) if horizon > 0 else 0
    rows = np.empty((n + 1, len(init) + 1), dtype=object)
    for k in range(n + 1):
        rows[k, 0] = k * step
        for d in range(len(init)):
            if k == 0:
                rows[k, d + 1] = init[d]
            else:
                f = z3.Function(f"flow/{aid}/{'/'.join(mode)}/{d}/{k}", *([R] * len(init)), R)
                rows[k, d + 1] = mk(f(*[term(x, "real") for x in init]))
    return rows


def rand_vel(rng, logic):
    vel = {}
    for m in itertools.product(*[MODES[d][1] for d in logic.discs]):
        vel[m] = [rnd(rng, -2, 2, 2) if rng.random() < 0.8 else 0.0 for _ in logic.conts]
    return vel


def env_of(logic, aid, states, modes, logics):
    """point environment of agent aid"""
    def pack(a, conts, discs):
        return {**dict(zip(conts, states[a])), **dict(zip(discs, modes[a]))}
    env = {"ego": pack(aid, logic.conts, logic.discs), "others": []}
    for a in states:
        if a != aid:
            env["others"].append(pack(a, logic.conts, logic.discs))
    return env


class World:
    """a random multi-agent scenario"""

    def __init__(self, S, agents=(1, 3), nrules=(0, 3), nasserts=(0, 2), conts=None, discs=None, depth=1, box=False, same=False, p_assert=0.4, resets=0.4, filt=False):
        rng = self.rng = S.rng
        n = rng.randint(*agents)
        self.ids = [f"car{k}" for k in range(n)]
        rng.shuffle(self.ids)
        conts = conts or rng.choice([("x",), ("x", "y"), ("x", "x2"), ("y", "x2", "x")])
        discs = discs or rng.choice([("agent_mode",), ("agent_mode", "tag_mode")])
        self.conts, self.discs = conts, discs
        self.logic, self.vel, self.modes, self.init = {}, {}, {}, {}
        self.log, self.agents, self.sym = [], None, False
        for a in self.ids:
            others = n > 1 and rng.random() < 0.7
            g = Gen(rng, conts, discs, others, filt)
            self.logic[a] = Logic(conts, discs, g.rules(rng.randint(*nrules), depth, resets=resets), g.asserts(rng.randint(*nasserts)) if rng.random() < p_assert else [], others)
            self.vel[a] = rand_vel(rng, self.logic[a])
            self.modes[a] = tuple(rng.choice(MODES[d][1]) for d in discs)
            lo = [rnd(rng, -2, 2) for _ in conts]
            w = [rng.choice([0, 0, 0.25, 0.5]) if box else 0 for _ in conts]
            self.init[a] = [lo, [l + x for l, x in zip(lo, w)]]

    def scenario(self, **cfg):
        from verse import Scenario, ScenarioConfig
        sc = Scenario(ScenarioConfig(parallel=False, print_level=0, **cfg))
        self.make_agents()
        for a in self.ids:
            sc.add_agent(self.agents[a])
            sc.set_init_single(a, [list(self.init[a][0]), list(self.init[a][1])], self.modes[a])
        return sc

    def make_agents(self):
        if self.agents is None:
            self.agents = {a: make_agent(self, a) for a in self.ids}
        return self.agents

    def flow(self, aid, mode, init, horizon, step):
        return (sym_flow(aid, mode, init, horizon, step) if self.sym else flow(self.vel[aid], mode, init, horizon, step))

    def note(self, S, **kw):
        S.draws.update(codes={a: self.logic[a].code() for a in self.ids}, vel={a: {"/".join(m): v for m, v in self.vel[a].items()} for a in self.ids},
                       init=self.init, modes=self.modes, **kw)


class FixedWorld(World):
    """a given scenario: {agent: (rules, asserts, {modes: velocities}, modes, [lo, hi])}"""

    def __init__(self, conts, discs, agents):
        self.ids, self.conts, self.discs = list(agents), conts, discs
        self.log, self.agents, self.sym = [], None, False
        self.logic, self.vel, self.modes, self.init = {}, {}, {}, {}
        for a, (rules, asserts, vel, modes, init) in agents.items():
            self.logic[a] = Logic(conts, discs, rules, asserts, any("any" in str(r) or "all" in str(r) for r in rules))
            self.vel[a], self.modes[a], self.init[a] = vel, modes, init
