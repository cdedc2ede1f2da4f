"""Reference answers computed without the repository's code.

Binary instances: exhaustive enumeration of {0,1}^n.
Continuous instances: enumeration of LPs over the minimal scenario subsets, or
(larger) one exact MIP with per-constraint naive big-M and an *integer* budget
of violated scenarios.  Gurobi is used as a plain LP/MIP engine."""
import itertools
import math

import gurobipy as gp
import numpy as np
from gurobipy import GRB

_env = None


def env():
    global _env
    if _env is None:
        _env = gp.Env(params={'OutputFlag': 0, 'Threads': 1})
    return _env


def all_binary(n):
    return ((np.arange(2**n)[:, None] >> np.arange(n)[None, :]) & 1
            ).astype(float)


def violations(A, b, X):
    """max_i (A_s x - b)_i for each point and scenario: shape (len(X), N)."""
    N, m, n = A.shape
    out = np.full((len(X), N), -np.inf)
    for s in range(N):
        out[:, s] = (X @ A[s].T - b[None, :]).max(axis=1)
    return out


class BinaryTruth:
    TOL = 1e-7

    def __init__(self, inst):
        self.inst = inst
        self.X = all_binary(inst.n)
        self.V = violations(inst.A, inst.b, self.X)
        self.sat = self.V <= self.TOL
        self.obj = self.X @ inst.c
        self.nviol = (~self.sat).sum(axis=1)
        self.feas = self.nviol <= inst.k

    def opt(self):
        if not self.feas.any():
            return -np.inf
        return float(self.obj[self.feas].max())

    def subset_opt(self, scenarios):
        ok = self.sat[:, list(scenarios)].all(axis=1)
        return float(self.obj[ok].max()) if ok.any() else -np.inf

    def scenario_costs(self):
        return [self.subset_opt([s]) for s in range(self.inst.N)]

    def max_violation(self, s, i, mask):
        vals = self.X[mask] @ self.inst.A[s, i] - self.inst.b[i]
        return float(vals.max())


def lp(c, A, b, n):
    """max c x, A x <= b, 0<=x<=1."""
    m = gp.Model(env=env())
    m.Params.FeasibilityTol = 1e-9
    m.Params.OptimalityTol = 1e-9
    x = [m.addVar(lb=0.0, ub=1.0) for _ in range(n)]
    for row, rhs in zip(A, b):
        m.addConstr(gp.LinExpr(list(map(float, row)), x) <= float(rhs))
    m.setObjective(gp.LinExpr(list(map(float, c)), x), GRB.MAXIMIZE)
    m.optimize()
    if m.Status != GRB.OPTIMAL:
        return -np.inf, None
    return m.ObjVal, np.array([v.X for v in x])


class ContTruth:
    def __init__(self, inst):
        self.inst = inst
        self.cache = {}

    def subset_opt(self, scenarios):
        i = self.inst
        key = tuple(sorted(scenarios))
        if key not in self.cache:
            A = i.A[list(key)].reshape(-1, i.n)
            b = np.tile(i.b, len(key))
            self.cache[key] = lp(i.c, A, b, i.n)[0]
        return self.cache[key]

    def scenario_costs(self):
        return [self.subset_opt([s]) for s in range(self.inst.N)]

    def opt(self):
        i = self.inst
        if i.k >= i.N:
            return float(i.c.clip(0).sum())
        if math.comb(i.N, i.k) <= 60:
            return max(self.subset_opt(set(range(i.N)) - set(v))
                       for v in itertools.combinations(range(i.N), i.k))
        return mip_opt(i)


def mip_opt(i, objective=None, const=0.0):
    """max objective.x over the chance-feasible set (own formulation)."""
    m = gp.Model(env=env())
    m.Params.FeasibilityTol = 1e-9
    m.Params.IntFeasTol = 1e-9
    m.Params.MIPGap = 1e-10
    m.Params.MIPGapAbs = 1e-9
    x = [m.addVar(lb=0.0, ub=1.0,
                  vtype=GRB.CONTINUOUS if i.cont else GRB.BINARY)
         for _ in range(i.n)]
    y = [m.addVar(vtype=GRB.BINARY) for _ in range(i.N)]   # 1: violated
    for s in range(i.N):
        M = np.maximum(i.A[s].clip(0).sum(axis=1) - i.b, 0.0)
        for r in range(i.m):
            e = gp.LinExpr(i.A[s, r].tolist(), x)
            if M[r] > 0:
                e.add(y[s], -float(M[r]))
                m.addConstr(e <= float(i.b[r]))
    m.addConstr(gp.quicksum(y) <= i.k)
    obj = i.c if objective is None else objective
    m.setObjective(gp.LinExpr(list(map(float, obj)), x), GRB.MAXIMIZE)
    m.optimize()
    if m.Status != GRB.OPTIMAL:
        return -np.inf
    return m.ObjVal + const


class MipTruth(ContTruth):
    """Binary instances with too many items to enumerate."""

    def subset_opt(self, scenarios):
        key = tuple(sorted(scenarios))
        if key not in self.cache:
            self.cache[key] = mip_groups(self.inst, [[s] for s in key], 0)
        return self.cache[key]

    def opt(self):
        return mip_opt(self.inst)


def truth(inst):
    if inst.cont:
        return ContTruth(inst)
    return BinaryTruth(inst) if inst.n <= 14 else MipTruth(inst)


def count_violated(inst, x, tol):
    v = (inst.A @ np.asarray(x, float) - inst.b[None, :])
    return int((v.max(axis=1) > tol).sum())


def mip_groups(inst, groups, k, objective=None, const=0.0, cap=None):
    """max objective.x (default c) over points satisfying all constraints of
    all but at most k groups of scenarios, optionally with c.x <= cap."""
    i = inst
    m = gp.Model(env=env())
    m.Params.FeasibilityTol = 1e-9
    m.Params.IntFeasTol = 1e-9
    m.Params.MIPGap = 1e-10
    m.Params.MIPGapAbs = 1e-9
    x = [m.addVar(lb=0.0, ub=1.0,
                  vtype=GRB.CONTINUOUS if i.cont else GRB.BINARY)
         for _ in range(i.n)]
    y = [m.addVar(vtype=GRB.BINARY) for _ in groups]
    for g, grp in enumerate(groups):
        for s in grp:
            M = np.maximum(i.A[s].clip(0).sum(axis=1) - i.b, 0.0)
            for r in range(i.m):
                if M[r] > 0:
                    e = gp.LinExpr(i.A[s, r].tolist(), x)
                    e.add(y[g], -float(M[r]))
                    m.addConstr(e <= float(i.b[r]))
    m.addConstr(gp.quicksum(y) <= k)
    if cap is not None:
        m.addConstr(gp.LinExpr(i.c.tolist(), x) <= float(cap))
    obj = i.c if objective is None else objective
    m.setObjective(gp.LinExpr(list(map(float, obj)), x), GRB.MAXIMIZE)
    m.optimize()
    if m.Status != GRB.OPTIMAL:
        return -np.inf
    return m.ObjVal + const


def group_opt(t, groups, k):
    """Optimum of the relaxed problem over a partition."""
    inst = t.inst
    if isinstance(t, BinaryTruth):
        sat = np.stack([t.sat[:, list(g)].all(axis=1) for g in groups],
                       axis=1)
        ok = (~sat).sum(axis=1) <= k
        return float(t.obj[ok].max()) if ok.any() else -np.inf
    if len(groups) == k + 1:
        return max(t.subset_opt(g) for g in groups)
    return mip_groups(inst, groups, k)
