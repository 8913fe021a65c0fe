"""P19  The transitions and assertions extracted from a decision logic are those of the program."""
import ast
import re
import types
from types import SimpleNamespace

import z3

from pyvc.contract import Contract, Prop
from pyvc.spec import CTX
from ._kit import MODES, Gen, src, rnd

HEAD = """from enum import Enum, auto
import copy
from typing import List
class AgentMode(Enum):
    A = auto()
    B = auto()
    C = auto()
class TagMode(Enum):
    P = auto()
    Q = auto()
class State:
    x: float
    y: float
    x2: float
    agent_mode: AgentMode
    tag_mode: TagMode
"""
CONTS, DISCS = ("x", "y", "x2"), ("agent_mode", "tag_mode")


class Prog(Gen):
    """random decision logics; the text is produced twice, once with every assignment and assertion logged"""

    def __init__(self, rng):
        super().__init__(rng, CONTS, DISCS, others=True)
        self.k = 0
        self.helpers = []
        self.locals = []
        self.labels = 0

    def test(self, depth=1):
        r = self.rng.random()
        if r < 0.15:
            h = self.rng.randrange(3)
            a, b = src(self.num("ego", 0)), src(self.num("ego", 1))
            self.helpers.append(h)
            return f"helper{h}({a}, {b})"
        if r < 0.3 and self.locals:
            l = self.rng.choice(self.locals)
            return f"{l} {self.rng.choice(['<', '>='])} {rnd(self.rng)}"
        if r < 0.4:
            a, b = sorted([rnd(self.rng), rnd(self.rng)])
            return f"{a} <= ego.{self.rng.choice(CONTS)} < {b}"
        if r < 0.5:
            o = self.atom("o")
            f = self.atom("o")
            nm = self.rng.choice(["o", "other", "loc0", "loc1"])
            o, f = (re.sub(r"\bo\.", nm + ".", src(x)) for x in (o, f))
            return f"{self.rng.choice(['any', 'all'])}({o} for {nm} in others if {f})"
        return src(self.cond(depth))

    def block(self, ind, depth, n):
        pad = "    " * ind
        plain, logged = [], []
        for _ in range(n):
            r = self.rng.random()
            if r < 0.45 and depth > 0:
                p, l = self.if_(ind, depth)
                plain += p
                logged += l
            elif r < 0.6:
                lab = f"l{self.labels}"
                self.labels += 1
                t = self.test()
                plain.append(f"{pad}assert {t}, '{lab}'")
                logged.append(f"{pad}_assert('{lab}', {t})")
            elif ind > 1:
                if self.rng.random() < 0.5:
                    v = self.rng.choice(DISCS)
                    e = f"{MODES[v][0]}.{self.rng.choice(MODES[v][1])}"
                else:
                    v = self.rng.choice(CONTS)
                    e = src(self.reset())
                    if self.locals and self.rng.random() < 0.3:
                        e = f"{self.rng.choice(self.locals)} + {rnd(self.rng)}"
                plain.append(f"{pad}output.{v} = {e}")
                logged.append(f"{pad}output.{v} = {e}; _log('{v}', output.{v})")
        return plain, logged

    def if_(self, ind, depth, kw="if"):
        pad = "    " * ind
        t = self.test()
        saved = list(self.locals)
        p, l = self.block(ind + 1, depth - 1, self.rng.randint(1, 3))
        self.locals = saved
        if not p:
            v = self.rng.choice(DISCS)
            e = f"{MODES[v][0]}.{self.rng.choice(MODES[v][1])}"
            p, l = [f"{pad}    output.{v} = {e}"], [f"{pad}    output.{v} = {e}; _log('{v}', output.{v})"]
        plain, logged = [f"{pad}{kw} {t}:"] + p, [f"{pad}{kw} {t}:"] + l
        r = self.rng.random()
        if r < 0.25:
            p, l = self.if_(ind, depth, "elif")
            return plain + p, logged + l
        if r < 0.5:
            p, l = self.block(ind + 1, depth - 1, self.rng.randint(1, 2))
            if p:
                plain += [f"{pad}else:"] + p
                logged += [f"{pad}else:"] + l
        return plain, logged

    def program(self):
        pre = []
        for k in range(self.rng.randint(0, 2)):
            pre.append(f"    loc{k} = {src(self.num('ego', 1))}")
            self.locals.append(f"loc{k}")
        p, l = self.block(1, 3, self.rng.randint(1, 4))
        hs = []
        for h in range(3):
            if h == 0:
                hs.append("def helper0(a, b):\n    return a - b < 1.0\n")
            elif h == 1:
                hs.append("def helper1(a, b):\n    s = a + b\n    return s > 0 and a < 2\n")
            else:
                hs.append("helper2 = lambda a, b: a <= b\n")
        head = HEAD + "".join(hs) + "def decisionLogic(ego: State, others: List[State]):\n"
        body = lambda b: head + "\n".join(pre + ["    output = copy.deepcopy(ego)"] + b + ["    return output"]) + "\n"
        return body(p), body(l)


def namespaces(env, enum):
    conv = (lambda v, k: v) if enum is None else (lambda v, k: getattr(enum, MODES[k][0])[v] if k in DISCS else v)
    mk = lambda d: SimpleNamespace(**{k: conv(v, k) for k, v in d.items()})
    return {"ego": mk(env["ego"]), "others": [mk(o) for o in env["others"]]}


def rand_env(rng):
    def one():
        d = {c: rnd(rng, -4, 5) for c in CONTS}
        d.update({v: rng.choice(MODES[v][1]) for v in DISCS})
        return d
    return {"ego": one(), "others": [one() for _ in range(rng.choice([0, 1, 2, 3]))]}


class Unred(ast.NodeTransformer):
    def visit(self, n):
        if type(n).__name__ == "Reduction":
            g = ast.GeneratorExp(self.visit(n.expr), [ast.comprehension(ast.Name(n.it, ast.Store()), self.visit(n.value), [], 0)])
            return ast.Call(ast.Name(str(n.op), ast.Load()), [g], [])
        return self.generic_visit(n)


def run_ast(e, ns):
    """value of an expression kept as syntax tree"""
    import copy
    t = ast.fix_missing_locations(ast.Expression(Unred().visit(copy.deepcopy(e))))
    return eval(compile(t, "ast", "eval"), dict(ns))


def plain(v):
    return v.name if hasattr(v, "name") else v


def paths(S):
    for _ in range(20):
        g = Prog(S.rng)
        try:
            code, logged = g.program()
            compile(code, "x", "exec")
            break
        except SyntaxError:
            continue
    S.draws["code"] = code
    ir = S.call("verse.parser.parser.ControllerIR.parse", code, allow=(NotImplementedError,))
    if isinstance(ir, NotImplementedError):
        S.assume(False)
    S.check("state variables", ir.state_defs["State"].cont == list(CONTS) and ir.state_defs["State"].disc == list(DISCS) and ir.state_defs["State"].disc_type == [MODES[d][0] for d in DISCS])
    S.check("modes", ir.mode_defs["AgentMode"].modes == ["A", "B", "C"] and ir.mode_defs["TagMode"].modes == ["P", "Q"])
    S.check("arguments", [(a.name, a.typ, a.is_list) for a in ir.args] == [("ego", "State", False), ("others", "State", True)])
    mod = types.ModuleType("dl")
    exec(compile(logged, "dl", "exec"), mod.__dict__)
    for _ in range(12):
        env = rand_env(S.rng)
        log, failed = [], []
        mod._log = lambda v, x: log.append((v, plain(x)))
        mod._assert = lambda lab, c: failed.append(lab) if not c else None
        args = namespaces(env, mod)
        out = mod.decisionLogic(args["ego"], args["others"])
        S.draws["env"] = env
        for kind in ("run", "set"):
            ns = namespaces(env, None)
            if kind == "run":
                val = lambda p: eval(p.val, dict(ns))
                cond = lambda p: eval(p.cond, dict(ns))
                asserts = [(a.label, eval(a.pre, dict(ns)), lambda a=a: eval(a.cond, dict(ns))) for a in ir.asserts]
            else:
                val = lambda p: run_ast(p.val_veri, ns)
                cond = lambda p: run_ast(p.cond_veri, ns)
                asserts = [(a.label, run_ast(a.pre, ns), lambda a=a: run_ast(a.cond, ns)) for a in ir.asserts_veri]
            got = {}
            for p in ir.paths:
                if cond(p):
                    got.setdefault(p.var, []).append(val(p))
            done = {}
            for v, x in log:
                done.setdefault(v, []).append(x)
            for v, xs in done.items():
                S.check("the value computed by the program is one of the extracted assignments",
                        any(xs[-1] == g for g in got.get(v, [])) or (xs[-1] == env["ego"][v]))
            for v, xs in got.items():
                S.check("an extracted assignment is enabled only when the program executes it", all(any(x == g for x in done.get(v, [])) for g in xs))
            bad = sorted(lab for lab, pre, c in asserts if pre and not c())
            S.check("violated assertions are those the program violates", bad == sorted(failed))


# ------------------------------------------------------------------ all states, enumerated program shapes
def all_shapes():
    """statement blocks: tuples of "m"/"n" (assign the first/second variable), "a" (assert), ("if", block, block)"""
    small = [("if", t, f) for t in [("m",), ("a",), ("m", "a"), ("m", "n")] for f in [(), ("m",), ("a",)]]
    mid = [(i,) for i in small]
    for i in small:
        mid += [("m", i), (i, "m"), ("a", i), (i, "a")]
    few = small[:3] + small[6:8]
    mid += [(i, j) for i in few for j in small]
    deep = [("if", t, f) for t in mid for f in [(), ("m",), ("a",)] + [(i,) for i in few]]
    deep += [("if", ("m",), f) for f in mid] + [("if", ("a",), f) for f in mid[:60]]
    tops = [(i,) for i in small] + [(i, j) for i in small for j in small] + [("a", i, j) for i in few for j in small]
    tops += [(i, j, k) for i in few for j in few for k in few]
    tops += [(d,) for d in deep] + [(d, i) for d in deep[::7] for i in few] + [(i, d) for d in deep[::7] for i in few]
    return tops


class Emit:
    def __init__(self):
        self.t, self.k, self.n, self.events = 0, 0, 0, []

    def block(self, b, ind, cond):
        out = []
        pad = "    " * ind
        for st in b:
            if st in ("m", "n"):
                self.k += 1
                self.events.append(("set", st, self.k, cond))
                out.append(f"{pad}output.{st} = ego.q + {self.k}")
            elif st == "a":
                self.n += 1
                self.events.append(("assert", self.n, None, cond))
                out.append(f"{pad}assert ego.s{self.n} > 0, 'a{self.n}'")
            else:
                self.t += 1
                b0 = z3.Bool(f"t{self.t}")
                out.append(f"{pad}if ego.t{self.t} > 0:")
                out += self.block(st[1], ind + 1, cond + [b0])
                if st[2]:
                    out.append(f"{pad}else:")
                    out += self.block(st[2], ind + 1, cond + [z3.Not(b0)])
        return out


def to_z3(e):
    if isinstance(e, ast.Constant):
        return z3.BoolVal(bool(e.value))
    if isinstance(e, ast.BoolOp):
        return (z3.And if isinstance(e.op, ast.And) else z3.Or)([to_z3(x) for x in e.values])
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return z3.Not(to_z3(e.operand))
    if isinstance(e, ast.Compare) and isinstance(e.left, ast.Attribute) and isinstance(e.ops[0], ast.Gt):
        return z3.Bool(e.left.attr)
    raise TypeError(ast.dump(e))


def value_no(e):
    return int(e.right.value)


def shape_goals(S, b):
    em = Emit()
    lines = em.block(b, 1, [])
    fields = ["    q: float", "    m: float", "    n: float"] + [f"    t{k}: float" for k in range(1, em.t + 1)] + [f"    s{k}: float" for k in range(1, em.n + 1)]
    code = "import copy\nclass State:\n" + "\n".join(fields) + "\ndef decisionLogic(ego: State):\n    output = copy.deepcopy(ego)\n" + "\n".join(lines) + "\n    return output\n"
    S.draws["code"] = code
    ir = S.run("verse.parser.parser.ControllerIR.parse", code)
    goals = []
    conj = lambda c: z3.And(c) if c else z3.BoolVal(True)
    for v in "mn":
        sets = [(k, conj(c)) for kind, w, k, c in em.events if kind == "set" and w == v]
        ps = [(value_no(p.val_veri), to_z3(p.cond_veri)) for p in ir.paths if p.var == v]
        for j, (k, c) in enumerate(sets):
            last = z3.And([c] + [z3.Not(c2) for _, c2 in sets[j + 1:]])
            goals.append(("the last executed assignment is extracted", z3.Implies(last, z3.Or([pc for pk, pc in ps if pk == k])), code))
        for pk, pc in ps:
            goals.append(("an extracted assignment is executed when enabled", z3.Implies(pc, z3.Or([c for k, c in sets if k == pk])), code))
    for kind, k, _, c in em.events:
        if kind == "assert":
            mine = [a for a in ir.asserts_veri if a.label == f"a{k}"]
            goals.append(("an assertion is checked exactly when the program reaches it",
                          z3.And(conj(c), z3.Not(z3.Bool(f"s{k}"))) == z3.Or([z3.And(to_z3(a.pre), z3.Not(to_z3(a.cond))) for a in mine]), code))
    return goals


def enumerated(part, parts):
    def contract(S):
        bs = all_shapes()
        mine = bs[part::parts]
        if S.sym:
            S.functions.add("verse.parser.parser.ControllerIR.parse")
            for b in mine:
                CTX.check_deadline()
                for lab, g, code in shape_goals(S, b):
                    CTX.oblige_all(lab, g)
        else:
            for j in range(8):
                b = mine[S.int(f"k{j}", 0, len(mine) - 1)]
                for lab, g, code in shape_goals(S, b):
                    s = z3.Solver()
                    s.add(z3.Not(g))
                    S.check(lab, s.check() == z3.unsat)
    return contract


PROP = Prop("P19", [
    Contract(f"paths_{k}", paths, prove=None, runs=(160, 1500), functions=["verse.parser.parser.ControllerIR.parse"]) for k in range(4)
] + [
    Contract(f"shapes_{k}", enumerated(k, 3), prove="bounded", bound="enumerated programs of conditionals nested up to depth 2 with blocks of at most 3 statements; all truth values of tests and assertions",
             why_bounded="program shapes are enumerated; each program is read by the real parser and its extracted paths are compared with the program's semantics for all states",
             runs=(40, 200), budget=(200, 600)) for k in range(3)
])
