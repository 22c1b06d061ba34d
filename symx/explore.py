"""Depth-first exploration of a harness, proving its claims on every path and replaying models."""
import math, os, random, time, traceback
from fractions import Fraction
import numpy as np
import z3
from . import core, api, claims, loader
from .core import SymNum, SymBool, PathEnd, Unsupported, Budget, Ctx, Stats, raw_solve, z3float
from .claims import Rel, parts, node

TOL = Fraction(1, 10**6)
MARGINS = [Fraction(1), Fraction(1, 20), Fraction(1, 1000), Fraction(1, 10**5)]


class Replayer(object):
    """Runs models on the real code (see worker.py)."""

    def __init__(self, fn):
        self.fn = fn
        self.n = 0

    def __call__(self, req):
        self.n += 1
        return self.fn(req)


class Result(object):
    def __init__(self, case):
        self.case = case
        self.claims = {}        # name -> dict(proved, normal, tol, unknown, viol)
        self.violations = []    # confirmed
        self.unreproduced = []
        self.known = {}         # finding id -> description
        self.inconclusive = []
        self.paths = 0
        self.full_paths = 0
        self.replays = 0
        self.replays_ok = 0
        self.replay_refuted = 0
        self.replay_err = 0
        self.samples = []
        self.stats = Stats()
        self.unexplored = 0
        self.reached = 0
        self.time = 0.0

    def claim(self, name):
        return self.claims.setdefault(name, dict(reached=0, proved=0, by_normal_form=0, within_tol=0, unknown=0, violated=0))


def symval(name, env, c, byname, invs):
    v = env.get(name)
    if v is not None:
        return v
    if name in invs:
        v = 1.0 / symval(c.atoms[invs[name]].name, env, c, byname, invs)
    else:
        a = byname[name]
        if a.kind in ("cos", "sin"):
            v = (math.cos if a.kind == "cos" else math.sin)(pval(a.data, env, c, byname, invs))
        elif a.kind == "sqrt":
            v = math.sqrt(max(0.0, pval(a.sq, env, c, byname, invs)))
        elif a.kind == "floor":
            v = math.floor(pval(a.data, env, c, byname, invs))
        elif a.kind == "angle":
            v = math.atan2(pval(a.data[1], env, c, byname, invs), pval(a.data[0], env, c, byname, invs))
        elif a.kind == "den":
            v = pval(a.data, env, c, byname, invs)
        else:
            raise KeyError(a.kind)
    env[name] = v
    return v


def pval(p, env, c, byname, invs):
    tot = 0.0
    if not isinstance(p, dict):
        p = p.p
    for m, k in p.items():
        t = float(k)
        for i, e in m:
            a = c.atoms[i]
            if a.kind in ("ite", "abs"):
                x = zeval(a.z, env, c, byname, invs)
            else:
                x = symval(a.name, env, c, byname, invs)
            t *= x ** e
        tot += t
    return tot


def zeval(z, env, c, byname, invs):
    """Float value of a z3 expression."""
    key = ("z", z.get_id())
    if key in env:
        return env[key]
    d = z.decl().kind()
    ch = z.children()
    ev = lambda x: zeval(x, env, c, byname, invs)
    if not ch:
        if z3.is_true(z) or z3.is_false(z):
            v = z3.is_true(z)
        elif d == z3.Z3_OP_UNINTERPRETED:
            v = symval(z.decl().name(), env, c, byname, invs)
        else:
            v = core.z3float(z)
    elif d == z3.Z3_OP_AND:
        v = all(ev(x) for x in ch)
    elif d == z3.Z3_OP_OR:
        v = any(ev(x) for x in ch)
    elif d == z3.Z3_OP_NOT:
        v = not ev(ch[0])
    elif d == z3.Z3_OP_ITE:
        v = ev(ch[1]) if ev(ch[0]) else ev(ch[2])
    elif d == z3.Z3_OP_IMPLIES:
        v = not ev(ch[0]) or ev(ch[1])
    else:
        xs = [ev(x) for x in ch]
        if d == z3.Z3_OP_ADD:
            v = sum(xs)
        elif d == z3.Z3_OP_MUL:
            v = math.prod(xs)
        elif d == z3.Z3_OP_SUB:
            v = xs[0] - sum(xs[1:])
        elif d == z3.Z3_OP_UMINUS:
            v = -xs[0]
        elif d == z3.Z3_OP_DIV:
            v = xs[0] / xs[1]
        elif d == z3.Z3_OP_POWER:
            v = xs[0] ** xs[1]
        elif d == z3.Z3_OP_TO_REAL:
            v = xs[0]
        elif d == z3.Z3_OP_TO_INT:
            v = math.floor(xs[0])
        elif d == z3.Z3_OP_EQ:
            v = xs[0] == xs[1] if isinstance(xs[0], bool) else abs(xs[0] - xs[1]) <= 1e-9 * (1 + abs(xs[0]))
        elif d == z3.Z3_OP_LE:
            v = xs[0] <= xs[1] + (1e-12 if xs[0] != xs[1] else 0) * (1 + abs(xs[1]))
        elif d == z3.Z3_OP_GE:
            v = xs[0] >= xs[1] - 1e-12 * (1 + abs(xs[1]))
        elif d == z3.Z3_OP_LT:
            v = xs[0] < xs[1]
        elif d == z3.Z3_OP_GT:
            v = xs[0] > xs[1]
        else:
            raise KeyError(d)
    env[key] = v
    return v


def zcompile(exprs):
    """(names of the symbols, function of their values) for the float values of arithmetic z3 expressions."""
    memo, lines, syms = {}, [], []
    ops = {z3.Z3_OP_ADD: "+", z3.Z3_OP_MUL: "*", z3.Z3_OP_SUB: "-", z3.Z3_OP_DIV: "/", z3.Z3_OP_POWER: "**"}
    rel = {z3.Z3_OP_LE: "<=", z3.Z3_OP_GE: ">=", z3.Z3_OP_LT: "<", z3.Z3_OP_GT: ">", z3.Z3_OP_EQ: "=="}

    def go(z):
        k = z.get_id()
        if k in memo:
            return memo[k]
        d, ch = z.decl().kind(), z.children()
        if not ch:
            if z3.is_true(z) or z3.is_false(z):
                e = str(z3.is_true(z))
            elif d == z3.Z3_OP_UNINTERPRETED:
                e = "s[%d]" % len(syms)
                syms.append(z.decl().name())
            else:
                e = repr(core.z3float(z))
            memo[k] = "(%s)" % e
            return memo[k]
        xs = [go(x) for x in ch]
        if d in ops:
            e = ops[d].join(xs)
        elif d in rel:
            e = rel[d].join(xs)
        elif d == z3.Z3_OP_UMINUS:
            e = "-" + xs[0]
        elif d == z3.Z3_OP_NOT:
            e = "not " + xs[0]
        elif d == z3.Z3_OP_AND:
            e = " and ".join(xs)
        elif d == z3.Z3_OP_OR:
            e = " or ".join(xs)
        elif d == z3.Z3_OP_ITE:
            e = "%s if %s else %s" % (xs[1], xs[0], xs[2])
        elif d == z3.Z3_OP_TO_REAL:
            e = xs[0]
        else:
            raise KeyError(d)
        memo[k] = "t%d" % len(lines)
        lines.append("    %s = %s" % (memo[k], e))
        return memo[k]

    outs = [go(z) for z in exprs]
    ns = {}
    exec("def f(s):\n%s\n    return [%s]" % ("\n".join(lines), ", ".join(outs)), ns)
    return syms, ns["f"]


class Explorer(object):
    def __init__(self, case, fn, replay, opts, known_ids=(), seed=1):
        self.case, self.fn, self.replay, self.base_opts = case, fn, replay, opts
        self.known_ids = set(known_ids)
        self.res = Result(case)
        self.rng = random.Random(seed)
        self.seed = seed
        self.models = {}
        self.stop_all = False
        self.rest_cache = {}

    # -- exploration ------------------------------------------------------------------
    def run(self):
        t0 = time.time()
        stack = [[]]
        opts = dict(self.base_opts)
        opts["seed"] = self.seed
        limit = opts.get("max_paths", 4000)
        deadline = t0 + opts.get("time", 60)
        opts["deadline"] = deadline
        while stack and not self.stop_all:
            if self.res.paths >= limit or time.time() > deadline:
                self.res.unexplored += len(stack)
                self.res.inconclusive.append("exploration stopped (%s) with %d branches left" % ("time" if time.time() > deadline else "paths", len(stack)))
                break
            prefix = stack.pop()
            self.path(prefix, dict(opts), stack)
        self.res.time = time.time() - t0
        return self.res

    def path(self, prefix, opts, stack):
        c = Ctx(prefix, self.res.stats, opts)
        core.CTX = c
        self.c = c
        self.path_claims = []
        why = None
        exc = None
        self.res.paths += 1
        try:
            S = api.SymSession(self)
            self.fn(S)
            why = "done"
        except PathEnd as e:
            why = "stop" if isinstance(e, api.SymStop) else "infeasible"
        except Unsupported as e:
            if os.environ.get("VP_TB"):
                traceback.print_exc(limit=-14)
            why = "unsupported: %s" % (e.args[0] if e.args else "")
        except Budget as e:
            why = "budget: %s" % (e.args[0] if e.args else "")
        except RecursionError as e:
            why = "unsupported: recursion"
            if os.environ.get("VP_TB"):
                traceback.print_exc(limit=-14)
        except Exception as e:
            if os.environ.get("VP_TB"):
                traceback.print_exc(limit=-14)
            if c.dead:
                why = c.dead
            else:
                why = "exception"
                exc = e
        if c.unsupported and not why.startswith("unsupported"):
            why = "unsupported: " + c.unsupported
        stack.extend(reversed(c.new_prefixes))
        try:
            self.finish(c, why, exc)
        except Budget:
            self.res.inconclusive.append("time limit while closing a path")
        finally:
            core.CTX = None

    def finish(self, c, why, exc):
        if why == "infeasible":
            self.res.stats.infeasible += 1
            return
        if why in ("done", "stop"):
            self.res.full_paths += 1
        if why == "exception":
            tb = traceback.extract_tb(exc.__traceback__)
            where = "; ".join("%s:%s" % (os.path.basename(f.filename), f.lineno) for f in tb[-3:])
            name = "no-unexpected-exception"
            self.res.claim(name)["reached"] += 1
            got = self.confirm(name, [], extra_desc="%s: %s at %s" % (type(exc).__name__, exc, where), want_exc=True)
            if got is None:
                self.note("a path ended by %s (%s, %s) that the real code does not show: not encoded" % (type(exc).__name__, exc, where))
            return
        if why not in ("done", "stop"):
            self.note(why)
        elif self.res.replays >= self.base_opts.get("max_replays", 12) and self.rng.random() > 0.02:
            return
        elif self.res.replays >= 3 * self.base_opts.get("max_replays", 12):
            return
        # witness of the path, run on the real code
        tries = 1 if why in ("done", "stop") else 3
        for k in range(tries):
            m = self.full_model([], ms=self.base_opts.get("witness_ms", 1500), prefs=True, diversify=k, guess=True)
            if m is None:
                break
            if m == "unsat":
                self.res.stats.infeasible += 1
                return
            self.run_replay(m, "witness")
            if self.stop_all:
                return

    def note(self, s):
        s = s.replace("\n", " ")[:300]
        if s not in self.res.inconclusive:
            self.res.inconclusive.append(s)

    # -- claims -----------------------------------------------------------------------
    def check(self, name, cond, known=(), exact=False):
        c = self.c
        if c.dead:
            raise PathEnd(c.dead)
        cl = self.res.claim(name)
        cl["reached"] += 1
        self.res.reached += 1
        kconds = []
        for fid, kc in known:
            if fid in self.known_ids:
                kconds.append((fid, api.truth(kc, 0)))
        for part in parts(cond):
            if self.stop_all:
                raise PathEnd("stop")
            self.prove(name, cl, part, [core.b_not(k) for _, k in kconds], exact)
        for fid, k in kconds:
            if fid in self.res.known or k is False:
                continue
            for part in parts(cond):
                if fid in self.res.known:
                    break
                self.find_known(name, part, fid, k)

    def prove(self, name, cl, part, side, exact=False):
        c = self.c
        t0 = api.truth(part, 0)
        if t0 is True:
            cl["proved"] += 1
            cl["by_normal_form"] += 1
            return
        extra = []
        for s in side:
            if s is False:
                cl["proved"] += 1
                return
            if isinstance(s, SymBool):
                extra.append(s.z)
        ms = self.base_opts.get("claim_ms", 4000)
        if isinstance(part, Rel) and self.interval(part):
            cl["proved"] += 1
            cl["by_normal_form"] += 1
            return
        neg = core.b_not(t0)
        goals = ([neg.z] if isinstance(neg, SymBool) else []) + extra
        if goals and (self.linear_unsat(goals) or self.split(part, extra, 0, self.base_opts.get("split", 8), light=True)):
            cl["proved"] += 1
            return
        if goals and not exact and isinstance(part, Rel):
            # rounding of constants: the claim within its tolerance
            w = core.b_not(api.truth(part, TOL if part.tol is None else Fraction(part.tol)))
            if w is False or isinstance(w, SymBool) and self.linear_unsat([w.z] + extra):
                cl["proved"] += 1
                cl["within_tol"] += 1
                return
        nsplit = self.base_opts.get("split", 8)
        cased = bool(goals) and bool(api.node_atoms(part, ("ite", "abs"), set()))
        r, m = c.solve(goals, ms=min(ms, 400) if cased else ms, lin=False) if goals else (z3.sat, None)
        if r == z3.unknown and cased:
            if self.split(part, extra, 0, nsplit):
                cl["proved"] += 1
                cl["by_cases"] = cl.get("by_cases", 0) + 1
                return
            r, m = c.solve(goals, ms=ms, lin=False)
        if r == z3.unsat:
            cl["proved"] += 1
            return
        tol = TOL if not isinstance(part, Rel) or part.tol is None else Fraction(part.tol)
        if exact:
            tol = 0
        weak = core.b_not(api.truth(part, tol))
        if exact:
            pass
        elif weak is False:
            cl["proved"] += 1
            cl["within_tol"] += 1
            return
        if not exact and (r != z3.sat or t0 is not False):
            goals = ([weak.z] if isinstance(weak, SymBool) else []) + extra
            r, m = c.solve(goals, ms=ms) if goals else (z3.sat, None)
            if r == z3.unsat:
                cl["proved"] += 1
                cl["within_tol"] += 1
                return
        if r != z3.sat and self.split(part, extra, 0 if exact else tol, self.base_opts.get("split", 8)):
            cl["proved"] += 1
            cl["by_cases"] = cl.get("by_cases", 0) + 1
            return
        # the whole path may be infeasible
        got = self.confirm(name, extra, part, exact=exact)
        if got == "unsat":
            cl["proved"] += 1
            return
        if got is None:
            cl["unknown"] += 1
            if r == z3.sat:
                self.res.unreproduced.append(name)
            else:
                self.note("claim %s: the solver gave no answer on a path" % name)
            return
        cl["violated"] += 1

    def linear_unsat(self, goals):
        """The linear abstraction of the path condition and the goals has no solution."""
        c = self.c
        st = self.res.stats
        t = time.time()
        ls = [core.linz(x) for x in c.slice(goals) + goals]
        s = z3.Solver()
        s.set("timeout", 1500)
        s.add(*[x[0] for x in ls])
        s.add(*[y for x in ls for y in x[2]])
        r = s.check()
        st.queries += 1
        if r != z3.unsat:
            # bounds of the products absorb rounding differences between constant factors
            byname = {a.name: a.id for a in c.atoms}
            ax = core.mon_bounds([x[0] for x in ls], lambda n: self.atom_bound(byname[n]) if n in byname else None)
            if ax:
                s.set("timeout", 4000)
                s.add(*ax)
                r = s.check()
                st.queries += 1
        st.solver_s += time.time() - t
        if r == z3.unsat:
            st.unsat += 1
        return r == z3.unsat

    def split(self, part, conds, tol, depth, light=False):
        """Prove a claim by case analysis on the conditional values it contains."""
        c = self.c
        t = api.truth(part, tol)
        if t is True:
            return True
        ats = api.node_atoms(part, ("ite", "abs"), set()) if depth else ()
        if not ats:
            if depth == self.base_opts.get("split", 8):
                return False
            neg = core.b_not(t)
            goals = ([neg.z] if isinstance(neg, SymBool) else []) + conds
            if light:
                return self.linear_unsat(goals)
            r, _ = c.solve(goals, ms=self.base_opts.get("split_ms", 1500))
            return r == z3.unsat
        i = min(ats)
        a = c.atoms[i]
        if a.kind == "ite":
            cond, A, B = a.data
            arms = ((cond, A.p), (z3.Not(cond), B.p))
        else:
            z = c.poly_z3(a.data)
            arms = ((z >= 0, a.data), (z3.Not(z >= 0), core.p_neg(a.data)))
        for z, q in arms:
            if self.linear_unsat(conds + [z]):
                continue
            if not self.split(api.node_subst(part, i, q), conds + [z], tol, depth - 1, light):
                return False
        return True

    def interval(self, part):
        """|a-b| <= tol by interval arithmetic over bounded atoms (rounding noise of constants)."""
        if part.op != "eq":
            return False
        a, b = api._dif(part.a, part.b)
        for q in (a, b):
            if not isinstance(q, SymNum) and not core.fin(q):
                return False
        d = SymNum.lift(a) - SymNum.lift(b)
        if not d.p or any(abs(k) > Fraction(1, 10**9) for k in d.p.values()):
            return not d.p
        tot = Fraction(0)
        for m, k in d.p.items():
            t = abs(k)
            for i, e in m:
                bd = self.atom_bound(i)
                if bd is None or e < 0:
                    return False
                t *= bd ** e
            tot += t
        return tot <= Fraction(1, 10**7)

    def atom_bound(self, i):
        b = self.c.bounds.get(i)
        if b is not None:
            return max(abs(b[0]), abs(b[1]))
        if self.c.atoms[i].kind in ("cos", "sin"):
            return Fraction(1)
        return None

    def find_known(self, name, part, fid, k):
        goals = [k.z] if isinstance(k, SymBool) else []
        for margin in MARGINS:
            v = core.b_not(api.truth(part, margin))
            if v is False:
                continue
            m = self.full_model(goals + ([v.z] if isinstance(v, SymBool) else []), ms=2000, prefs=True)
            if m is None or m == "unsat":
                continue
            rep = self.run_replay(m, "known", want=name)
            if fid in self.res.known:
                return

    def confirm(self, name, extra, part=None, extra_desc="", want_exc=False, exact=False):
        """Search for a counterexample that the real code reproduces."""
        seen_sat = False
        budget = self.base_opts.get("cex_tries", 6)
        allunsat = True
        alts = list(self.c.alts)
        rounds = [(a, True, 0) for a in alts] + [(None, True, 0), (None, False, 0)] + [(a, False, 0) for a in alts] + [(None, False, 1), (None, False, 2)]
        budget += 2 * len(alts)
        for alt, prefs, div in rounds:
            if prefs and not self.c.prefs and alt is None:
                continue
            tried = 0
            for margin in ([None] if part is None else [Fraction(1), Fraction(0)] if exact else MARGINS):
                if budget <= 0:
                    return None
                if alt is not None and tried >= 2:
                    break
                goals = list(extra) + ([alt] if alt is not None else [])
                if part is not None:
                    v = core.b_not(api.truth(part, margin))
                    if v is False:
                        continue
                    if isinstance(v, SymBool):
                        goals.append(v.z)
                m = self.full_model(goals, ms=self.base_opts.get("cex_ms", 3000), prefs="strict" if prefs else False, diversify=div)
                if m == "unsat":
                    if alt is None and (not goals or (part is not None and not prefs and api.truth(part, 0) is False)):
                        return "unsat"
                    continue
                if m is None:
                    continue
                seen_sat = True
                tried += 1
                budget -= 1
                before = len(self.res.violations), len(self.res.known)
                self.run_replay(m, "counterexample", want=name, desc=extra_desc)
                if len(self.res.violations) > before[0]:
                    return "violation"
                if want_exc and len(self.res.known) > before[1]:
                    return "known"
        return None

    # -- models -----------------------------------------------------------------------
    def components(self, cons):
        c = self.c
        parent = {}

        def find(x):
            while parent[x] != x:
                parent[x] = parent[parent[x]]
                x = parent[x]
            return x

        vs = []
        for z in cons:
            v = core.z3vars(z, c.varcache)
            vs.append(v)
            first = None
            for x in v:
                if x not in parent:
                    parent[x] = x
                if first is None:
                    first = find(x)
                else:
                    parent[find(x)] = first
        comps = {}
        consts = []
        for z, v in zip(cons, vs):
            if not v:
                consts.append(z)
                continue
            comps.setdefault(find(next(iter(v))), []).append(z)
        return list(comps.values()), consts

    def full_model(self, goals, ms=3000, prefs=False, diversify=0, guess=False):
        """Values for every symbolic variable of the path satisfying pc and goals; None = unknown."""
        c = self.c
        cons = list(c.pc) + list(goals)
        if prefs and c.prefs:
            m = self._model(cons + list(c.prefs), ms, diversify, goals, guess)
            if isinstance(m, dict):
                return m
            if prefs != "strict":
                # drop the preferences one by one
                keep = []
                for p in c.prefs[:12]:
                    if isinstance(self._model(cons + keep + [p], min(ms, 800), 0, goals, guess), dict):
                        keep.append(p)
                if keep:
                    m = self._model(cons + keep, ms, diversify, goals, guess)
                    if isinstance(m, dict):
                        return m
            else:
                return m
        return self._model(cons, ms, diversify, goals, guess)

    def _model(self, cons, ms, diversify, goals, guess=False):
        c = self.c
        comps, consts = self.components(cons)
        for z in consts:
            if z3.is_false(z3.simplify(z)):
                return "unsat"
        values = {}
        st = self.res.stats
        for comp in comps:
            key = (frozenset(z.get_id() for z in comp), diversify, guess)
            hit = self.models.get(key)
            if hit is None:
                hit = self._solve_comp(comp, ms, diversify, st, guess)
                if len(self.models) > 400:
                    self.models.clear()
                self.models[key] = (comp, hit)
            else:
                hit = hit[1]
            if hit is None or hit == "unsat":
                return hit
            values.update(hit)
        return self.extract(values)

    def _solve_comp(self, comp, ms, diversify, st, guess=False):
        c = self.c
        c.timecheck()
        names = set()
        for z in comp:
            names |= core.z3vars(z, c.varcache)
        innames = [n for n in sorted(names) if n in c.inputs]

        def vals(m):
            out = {}
            for d in m.decls():
                try:
                    out[d.name()] = z3float(m[d])
                except Exception:
                    pass
            return out

        if diversify:
            for t in range(3):
                fix = self.fixings(innames, 0.5)
                r, m = raw_solve(comp + fix, min(ms, 700), st, self.base_opts, portfolio=("smt",))
                if r == z3.sat:
                    return vals(m)
        if guess:
            nl = any(core.linz(z)[1] for z in comp)
            if nl:
                v = self.numeric(comp, names, innames)
                if v is not None:
                    return v
            for t in range(8 if nl else 0):
                fix = self.fixings(innames, (1.0, 1.0, 1.0, 0.95, 0.9, 0.9, 0.8, 0.7)[t])
                r, m = raw_solve(comp + fix, min(ms, 250 if t < 4 else 400), st, self.base_opts)
                if r == z3.sat:
                    return vals(m)
                if time.time() > c.opts.get("deadline", 1e18):
                    break
        r, m = raw_solve(comp, ms, st, self.base_opts)
        if r == z3.sat:
            return vals(m)
        if r == z3.unsat:
            return "unsat"
        for t in range(2 if guess else 6):
            fix = self.fixings(innames, (0.4, 0.6, 0.8, 0.9, 0.6, 0.8)[t])
            r, m = raw_solve(comp + fix, min(ms, 800), st, self.base_opts)
            if r == z3.sat:
                return vals(m)
        return None if guess or diversify else self.numeric(comp, names, innames, 6)

    def numeric(self, comp, names, innames, tries=12):
        """Try random inputs: compute every defined symbol and evaluate the constraints."""
        c = self.c
        byname = {a.name: a for a in c.atoms}
        invs = {z.decl().name(): i for i, z in c.invars.items()}
        for n in names:
            a = byname.get(n)
            if a is None and n not in invs or a is not None and a.kind == "var" and n not in c.inputs:
                return None
        own = {c.atoms[next(iter(v.p))[0][0]].name for v in c.inputs.values()}
        own |= {a.name for a in c.atoms if a.kind == "var"}
        t0 = time.time()
        for t in range(tries):
            env = {}
            frac = (0.0, 0.2, 1.0)[t % 3]
            for n, v in c.inputs.items():
                i = next(iter(v.p))[0][0]
                lo, hi = (float(q) for q in c.bounds.get(i, (-10, 10)))
                if v.isint:
                    env[c.atoms[i].name] = self.rng.randint(int(lo), int(hi))
                elif self.rng.random() < frac:
                    env[c.atoms[i].name] = lo + (hi - lo) * self.rng.random()
                else:
                    pool = [q for q in (-1, -0.5, 0, 0.125, 0.5, 1, 2, 10) if lo <= q <= hi]
                    env[c.atoms[i].name] = float(self.rng.choice(pool)) if pool else lo + (hi - lo) * self.rng.random()
            try:
                if all(zeval(z, env, c, byname, invs) for z in comp):
                    return {n: v for n, v in env.items() if isinstance(n, str) and (n in names or n not in own)}
                if t % 3 == 0 and self.refine(comp, env, c, byname, invs, t0 + 1.5):
                    return {n: v for n, v in env.items() if isinstance(n, str) and (n in names or n not in own)}
            except (ArithmeticError, ValueError, KeyError):
                pass
            if time.time() - t0 > 1.5:
                break
        return None

    def refine(self, comp, env, c, byname, invs, until):
        """Least squares from the values tried: the constraints as residuals. True if env now satisfies them."""
        from scipy.optimize import least_squares
        import numpy as np

        rel, other = [], []
        for z in comp:
            for y in (z.children() if z.decl().kind() == z3.Z3_OP_AND else [z]):
                neg = y.decl().kind() == z3.Z3_OP_NOT
                if neg:
                    y = y.children()[0]
                d = y.decl().kind()
                if d == z3.Z3_OP_EQ and not neg and not z3.is_bool(y.children()[0]):
                    rel.append((0, y.children()))
                elif d in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
                    rel.append((1 if (d in (z3.Z3_OP_LE, z3.Z3_OP_LT)) != neg else -1, y.children()))
        if not any(k == 0 for k, _ in rel) or len(rel) > 120:
            return False
        xs = [(c.atoms[next(iter(v.p))[0][0]].name, next(iter(v.p))[0][0]) for v in c.inputs.values() if not v.isint]
        used = set()
        for z in comp:
            used |= core.z3vars(z, c.varcache)
        trig = {a.name for _, a, _ in c.trigs} | {a.name for _, _, a in c.trigs}
        if not used & trig:
            xs = [x for x in xs if x[0] in used]
        if not xs or len(xs) > 40:
            return False
        lo = np.array([float(c.bounds.get(i, (-1000, 1000))[0]) for _, i in xs])
        hi = np.array([float(c.bounds.get(i, (-1000, 1000))[1]) for _, i in xs])
        hi = np.maximum(hi, lo + 1e-9)
        ints = {c.atoms[next(iter(v.p))[0][0]].name for v in c.inputs.values() if v.isint}
        base = {n: env[n] for n in ints if n in env}
        inner = np.minimum((hi - lo) * 1e-6, 1e-6)
        x0 = np.clip([env[n] for n, _ in xs], lo + inner, hi - inner)

        def load(x):
            env.clear()
            env.update(base)
            env.update({n: float(q) for (n, _), q in zip(xs, x)})

        syms, f = zcompile([q for _, ab in rel for q in ab])

        def res(x):
            if time.time() > until:
                raise ValueError("time")
            load(x)
            v = f([symval(n, env, c, byname, invs) for n in syms])
            return np.array([v[2 * i] - v[2 * i + 1] if k == 0 else max(0.0, k * (v[2 * i] - v[2 * i + 1]) + 1e-3) for i, (k, _) in enumerate(rel)], float)

        s = least_squares(res, x0, bounds=(lo, hi), max_nfev=40, xtol=1e-15, ftol=1e-15, gtol=1e-15)
        load(s.x)
        return all(zeval(z, env, c, byname, invs) for z in comp)

    def fixings(self, names, frac):
        out = []
        for n in names:
            if self.rng.random() > frac:
                continue
            v = self.c.inputs[n]
            i = next(iter(v.p))[0][0]
            lo, hi = self.c.bounds.get(i, (Fraction(-10), Fraction(10)))
            if v.isint:
                x = self.rng.randint(max(int(lo), -50), min(int(hi), 50)) if int(lo) < int(hi) else int(lo)
            else:
                pool = [Fraction(q) for q in (-30, -10, -3, -1, 0, 1, 2, 5, 10, 30, 100)] + [Fraction(1, 2), Fraction(1, 5), Fraction(-1, 2), Fraction(9, 10), Fraction(11, 10)]
                pool = [q for q in pool if lo <= q <= hi] or [lo + (hi - lo) * Fraction(self.rng.randint(0, 20), 20)]
                x = self.rng.choice(pool)
            out.append(v.z == z3.RealVal(x) if not v.isint else self.c.atoms[i].z == x)
        return out

    def turn(self, a, v, per):
        """The turn of the angle that satisfies the conditions of the path on the angle alone."""
        c = self.c
        own = [z for z in c.pc if core.z3vars(z, c.varcache) == {a.name}]
        for k in (0, 1, -1, 2, -2, 3, -3):
            q = z3.RealVal(repr(v + k * per))
            if all(z3.is_true(z3.simplify(z3.substitute(z, (a.z, q)))) for z in own):
                return v + k * per
        return v

    def extract(self, values):
        c = self.c
        # angles whose cosine and sine the solver chose
        for p, ca, sa in c.trigs:
            if ca.name in values and sa.name in values:
                lin = [(m, k) for m, k in p.items() if m]
                k0 = p.get((), Fraction(0))
                if len(lin) == 1 and len(lin[0][0]) == 1 and lin[0][0][0][1] == 1:
                    (m, k), = lin
                    a = c.atoms[m[0][0]]
                    th = math.atan2(values[sa.name], values[ca.name])
                    v, per = (th - float(k0)) / float(k), abs(2 * math.pi / float(k))
                    bd = c.bounds.get(m[0][0])
                    if bd is not None and v < float(bd[0]):
                        v += per * math.ceil((float(bd[0]) - v) / per)
                    if bd is not None and v > float(bd[1]):
                        v -= per * math.ceil((v - float(bd[1])) / per)
                    values[a.name] = self.turn(a, v, per)
        inputs = {}
        for n, v in c.inputs.items():
            i = next(iter(v.p))[0][0]
            x = values.get(c.atoms[i].name)
            if x is None:
                lo, hi = c.bounds.get(i, (0, 0))
                x = 0 if lo <= 0 <= hi else (float(lo) if not v.isint else int(lo))
            inputs[n] = x
        script = {}

        def val(v):
            if not isinstance(v, SymNum):
                return None if isinstance(v, float) and math.isnan(v) else float(v)
            if v.isconst():
                return float(v.cval())
            tot = 0.0
            for m, k in v.p.items():
                t = float(k)
                for i, e in m:
                    t *= values.get(c.atoms[i].name, 0.0) ** e
                tot += t
            return tot

        for key, e in getattr(c, "rng_script", {}).items():
            script[key] = dict(method=e["method"], values=[val(v) for v in e["values"]], shape=list(e["shape"]) if e["shape"] is not None else None, int=e["int"])
        for k, rec in enumerate(c.stub_calls.get("linsolve", [])):
            if rec["x"] is not None:
                script["lin#%d" % k] = dict(values=[val(x) for x in rec["x"]])
        cp = []
        for rec in c.stub_calls.get("cp", []):
            cp.append([val(x) for x in rec["flat"]])
        return dict(inputs=inputs, choices=dict(c.choices), script=script, cp=cp)

    # -- replay -----------------------------------------------------------------------
    def run_replay(self, model, why, want=None, desc=""):
        req = dict(case=self.case, known=sorted(self.known_ids), **model)
        self.res.replays += 1
        outs = []
        modes = [False]
        if why != "witness" and (self.c.opts.get("lin_used") or any(k.startswith("lin#") for k in model["script"])):
            modes = [False, True]
        for use_lin in modes:
            req["use_lin"] = use_lin
            out = self.replay(req)
            outs.append(out)
            bad = self.judge(out, req, why, want, desc)
            if bad:
                return out
        return outs[-1]

    def judge(self, out, req, why, want, desc):
        st = out.get("status")
        if st in ("error", "timeout"):
            self.res.replay_err += 1
            self.note("replay %s: %s" % (st, out.get("error", "")[-200:]))
            return False
        if st == "assume":
            self.res.replay_refuted += 1
            return False
        fails = [r for r in out["results"] if not r[1]]
        new = [r for r in fails if not r[2]]
        for r in fails:
            for fid in r[2]:
                self.res.known.setdefault(fid, dict(claim=r[0], desc=r[3], inputs=req["inputs"], choices=req["choices"]))
        if st == "exception":
            new = new + [("no-unexpected-exception", False, [], out["error"])]
        if not new:
            self.res.replays_ok += 1
            if len(self.res.samples) < 3:
                self.res.samples.append(dict(case=self.case, kind=why, inputs=req["inputs"], choices=req["choices"], checks_passed=len([r for r in out["results"] if r[1]])))
            return False
        r = next((x for x in new if x[0] == want), new[0])
        self.res.violations.append(dict(claim=r[0], desc=r[3] or desc, kind=why, request=req, observed=out))
        if len(self.res.violations) >= self.base_opts.get("max_violations", 1):
            self.stop_all = True
        return True
