"""C16: posterior and evidence are correct on average over random streams."""
import os
import numpy as np
from sim import life, oracle, proc
from sim.core import Stats, Violation, Inconclusive, Rand
from sim.exact import Exact
from sim.world import keep_rng, set_fixed_rng

BASE = dict(n_act=32, n_eff=64, n_total=256, precond=False, flow="tiny", epochs=4, lr=2e-2, train_freq=None, dynamic=True, metric="ess",
            sample="tpcn", resample="mult", transform="probit", n_steps=None, n_max_steps=None, n_prior=None, mode="serial", n_evidence=0)
LONG = dict(n_steps=1000, n_max_steps=10)          # a fixed number of steps: the kernel's own stationary law shows
RUN = [dict(op="run", mult=4.0, save=None, fault=None)]
CRASH = [dict(op="crash", mult=4.0, save=1, at=400, how="resume", rng=False), dict(op="run", mult=4.0, save=None, fault=None)]
CHAIN = [dict(op="crash", mult=4.0, save=1, at=150, how="load", rng=False), dict(op="crash", mult=4.0, save=1, at=500, how="resume", rng=False),
         dict(op="run", mult=3.0, save=None, fault=None), dict(op="restart", how="resume", rng=False), dict(op="run", mult=4.0, save=None, fault=None)]
FAIL = [dict(op="run", mult=4.0, save=None, fault=dict(site="eval", at=450, exc=0, times=1)), dict(op="run", mult=2.0, save=None, fault=None),
        dict(op="run", mult=4.0, save=None, fault=dict(site="prior", at=300, exc=0, times=1)), dict(op="run", mult=4.0, save=None, fault=None)]


def cell(prior, lik, ops=RUN, hole=None, invalid=None, width=1.0, **k):
    t = dict(prior=list(prior), lik=lik, width=width, offset=0.0, args=False, scalar="np", hole=hole, invalid=invalid)
    return dict(cfg=dict(BASE, t=t, **k), ops=ops)


P, Q = dict(precond=True), dict(precond=False)
CELLS = {
    # kernels, long chains
    "pcn-flat": cell(("norm", "unif"), "flat", **LONG),
    "pcn-flat-half": cell(("expon", "wmax"), "flat", transform="logit", **LONG),
    "pcn-banana": cell(("norm", "unif"), "banana", **LONG),
    "pcn-3d": cell(("expon", "wmax", "beta"), "gauss", **LONG),
    "rwm-flat": cell(("norm", "beta"), "flat", sample="rwm", **LONG),
    "rwm-flat-half": cell(("shexp", "wmax"), "flat", sample="rwm", **LONG),
    "rwm-corr": cell(("norm", "unif"), "corr", sample="rwm", transform="logit", **LONG),
    "rwm-3d": cell(("expon", "wmax", "unit"), "gauss", sample="rwm", **LONG),
    "ppcn-flat": cell(("norm", "unif"), "flat", precond=True, flow="spline", **LONG),
    "ppcn-flat-half": cell(("expon", "wmax"), "flat", precond=True, flow="spline", lr=1e-3, **LONG),
    "ppcn-corr": cell(("unif", "norm"), "corr", precond=True, flow="spline", transform="logit", **LONG),
    "prwm-flat": cell(("norm", "unif"), "flat", sample="rwm", precond=True, flow="spline", **LONG),
    "prwm-flat-half": cell(("expon", "wmax"), "flat", sample="rwm", precond=True, flow="spline", lr=1e-3, **LONG),
    "prwm-banana": cell(("norm", "unif"), "banana", sample="rwm", precond=True, transform="logit", **LONG),
    "pcn-bimodal": cell(("wide", "unif"), "bimodal", **LONG),
    # default stopping and other options
    "opt-syst": cell(("norm", "unif"), "gauss", resample="syst", transform="logit", dynamic=False),
    "opt-uss": cell(("expon", "norm"), "gauss", metric="uss", sample="rwm"),
    "opt-freq": cell(("norm", "beta"), "gauss", precond=True, train_freq=3, flow="nsf3", resample="syst", n_steps=3),
    "opt-prior": cell(("norm", "norm"), "corr", n_prior=32, n_steps=3),
    # support does not fill the box
    "hole-pcn": cell(("norm", "unif"), "gauss", hole="half", **LONG),
    "hole-rwm": cell(("unif", "norm"), "flat", hole="half", sample="rwm", **LONG),
    "hole-ppcn": cell(("expon", "norm"), "gauss", hole="half", precond=True, n_evidence=200, width=2.0, epochs=10, n_steps=3),
    "hole-prwm": cell(("unif", "norm"), "flat", hole="half", precond=True, sample="rwm", n_evidence=200, epochs=10, **LONG),
    # zero-likelihood regions
    "zero-pcn": cell(("norm", "unif"), "gauss", invalid=dict(kind="region", at=0.5, val="-inf"), **LONG),
    "zero-rwm": cell(("expon", "unif"), "gauss", invalid=dict(kind="region", at=0.5, val="nan"), sample="rwm", **LONG),
    "zero-ppcn": cell(("norm", "unif"), "gauss", invalid=dict(kind="region", at=1.0, val="nan"), precond=True, n_evidence=200, width=2.0, epochs=10, n_steps=3),
    # periodic and reflective parameters
    "bc-periodic": cell(("unif", "norm"), "gauss", periodic=[0], width=2.0, **LONG),
    "bc-reflective": cell(("beta", "unit"), "flat", reflective=[0, 1], sample="rwm", **LONG),
    "bc-precond": cell(("unif", "unit"), "gauss", periodic=[0], reflective=[1], precond=True, **LONG),
    # importance-sampled evidence
    "ev-pcn": cell(("norm", "unif"), "gauss", precond=True, n_evidence=200, width=2.0, epochs=20, n_steps=3),
    "ev-rwm": cell(("norm", "norm"), "flat", precond=True, sample="rwm", n_evidence=200, epochs=20, n_steps=3),
    # interrupted
    "crash-pcn": cell(("norm", "unif"), "gauss", ops=CRASH, n_steps=3),
    "crash-ppcn": cell(("norm", "unif"), "gauss", ops=CHAIN, precond=True, n_evidence=200, width=2.0, epochs=20, n_steps=3),
    "fail-rwm": cell(("expon", "unif"), "gauss", ops=FAIL, sample="rwm", n_steps=3),
}
NAMES = sorted(CELLS)
CHUNK = 4
CHEAP = {n for n in NAMES if CELLS[n]["cfg"]["t"]["lik"] == "flat" and not CELLS[n]["cfg"]["n_evidence"]}
PER_CELL = dict(quick=(64, 128), thorough=(3000, 6000))        # streams per cell (dear, cheap)


def plan(tier):
    """The cells' streams, in chunks, interleaved so that a budget cuts all cells alike."""
    per = {n: PER_CELL[tier][n in CHEAP] // CHUNK for n in NAMES}
    return [n for k in range(max(per.values())) for n in NAMES if k < per[n]]


PLAN = {t: plan(t) for t in PER_CELL}
CASES = {t: len(PLAN[t]) for t in PLAN}
CPU, WALL, WALL_QUICK, MIN_BUDGET = 3000, 3000, 620, 100
RULE = ("A case is a chunk of independently seeded simulated runs of one of %d cells (kernel x preconditioning x transform x resampling x metric x prior and "
        "likelihood shape x support x boundary x interruptions), each with its crashes, failures and restarts. After all cases the ensemble of each cell is "
        "compared with the exact posterior and evidence computed by quadrature. Non-trivial: at least one run of the chunk completed. Distinct: by the "
        "numerical results." % len(NAMES))
FAULTS = ["crash", "eval:", "prior:"]
PROBES = ["cell:" + n for n in NAMES] + ["resume-after-crash", "restart"]
REAL = ["pocomc sampler, particles, four kernels, flow, scaler, geometry, prior, tools", "dill", "torch, zuko, numpy, scipy"]
STUB = ["process death and restart", "disk (observed)", "user likelihood and prior"]
MEASURE = "hash of the numerical results of the chunk"
SE = 5.0                                           # standard errors allowed on top of the tolerance
TOL = dict(w=0.012, t=0.015, r=0.015, k=0.014)     # finite-ensemble bias allowed (largest seen on 160 streams per cell: 0.009)
TOLZ, TOLIS, RATIO = 0.10, 0.04, (0.3, 2.0)
WHAT = dict(w="weighted posterior", t="trimmed posterior", r="resampled posterior", k="particles at temperature one")
ASSUME = ["bias below %s in posterior-CDF moments, %.2f in the ratio of SMC evidence and %.2f in that of importance-sampled evidence is not detected; "
          "decisions allow %g standard errors on top" % (TOL, TOLZ, TOLIS, SE),
          "the exact posterior and evidence come from midpoint quadrature on 1200 x 1200 prior quantiles"]
_ex = {}


def exact(name):
    if name not in _ex:
        _ex[name] = Exact(CELLS[name]["cfg"]["t"])
    return _ex[name]


class Mon(life.Monitor):
    def after(self, op, failed):
        if self.case.get("probe_last") and op is self.case["ops"][-1] and failed is None:
            self.collect()

    def collect(self):
        s, ex = self.s, exact(self.case["cell"])
        x, w, _, _ = s.posterior(trim_importance_weights=False)
        xt, wt, _, _ = s.posterior()
        with keep_rng():
            xr, _, _ = s.posterior(resample=True)
        res = s.results
        hot = [i for i in range(len(res["beta"])) if res["beta"][i] == 1.0]
        xk = np.concatenate([res["x"][i] for i in hot])
        from sim.ref import mixture
        z = mixture(res["logl"], res["beta"], res["logz"], 1.0)[1]
        ev, err = s.evidence()
        rec = dict(cell=self.case["cell"], w=ex.f(x, w).tolist(), t=ex.f(xt, wt).tolist(), r=ex.f(xr).tolist(), k=ex.f(xk).tolist(), nk=len(hot),
                   z=float(z - ex.logz), ev=float(ev - ex.logz), err=None if err is None else float(err), T=len(res["beta"]))
        self.st.data.append(rec)
        self.st.probes["cell:" + self.case["cell"]] += 1


def one(name, seed, st):
    """One simulated run (with its crashes and restarts) of a cell, under its own random stream."""
    c = CELLS[name]
    case = dict(cfg=dict(c["cfg"], seed=seed), ops=c["ops"], pool=seed % 1000, cell=name, probe_last=True)
    try:
        life.play(case, st, Mon, cpu=300)
    except Inconclusive:
        st.probes["degenerate"] += 1


def gen(r, tier, i):
    name = PLAN[tier][i]
    exact(name)                                     # computed once per worker, inherited by its executions
    return dict(kind="chunk", cell=name, seeds=[r.randrange(2 ** 31) for _ in range(CHUNK)])


def judge(name, recs):
    """[(class, message, excess)] of the ensemble of one cell, worst first; and a summary."""
    ex, bad, n = exact(name), [], len(recs)
    if n < 8:
        return [], {}
    out = dict(streams=n)
    for key in "wtrk":
        a = np.array([r[key] for r in recs])
        m, se = a.mean(0), a.std(0, ddof=1) / np.sqrt(n)
        tol = np.array([TOL[key] * (0.5 if f[0] in "sc" else 1.0) for f in ex.names])      # spread and cross moments vary less
        over = np.abs(m) - (tol + SE * se)
        j = int(np.argmax(over))
        out[key] = "%s %+.4f +- %.4f" % (ex.names[j], m[j], se[j])
        if over[j] > 0:
            bad.append(("posterior-bias", "cell %s: %s: expectation of %s is off by %+.4f +- %.4f over %d independent streams (exact %.4f)"
                        % (name, WHAT[key], ex.names[j], m[j], se[j], n, ex.mean[j]), over[j] / TOL[key]))
    z = np.exp(np.clip([r["z"] for r in recs], -50, 50)) - 1.0
    v = np.array([r["ev"] for r in recs])
    for what, a, tol in (("the mixture evidence", z, TOLZ),) + ((("the evidence", np.exp(np.clip(v, -50, 50)) - 1.0, TOLZ if recs[0]["err"] is None else TOLIS),)):
        m, se = a.mean(), a.std(ddof=1) / np.sqrt(n)
        out[what] = "%+.4f +- %.4f" % (m, se)
        if abs(m) > tol + SE * se:
            bad.append(("evidence-bias", "cell %s: %s is off by a factor 1%+.4f +- %.4f over %d independent streams" % (name, what, m, se, n), abs(m) / tol))
    if all(r["err"] is not None for r in recs):
        e = np.array([r["err"] for r in recs])
        q = float(np.median(np.abs(v) / np.maximum(e, 1e-300)))
        out["median error in reported errors"] = q
        if not RATIO[0] <= q <= RATIO[1]:
            bad.append(("evidence-error", "cell %s: the median deviation of the log-evidence is %.2f reported errors over %d independent streams (0.67 expected)" % (name, q, n), 10.0))
    elif any(r["err"] is not None for r in recs):
        bad.append(("evidence-error", "cell %s: evidence errors reported in some streams only" % name, 10.0))
    bad.sort(key=lambda b: -b[2])
    return bad, out


def post(pid, tier, seed, outs):
    """The aggregate decision: each cell's ensemble against the exact answer."""
    from sim.engine import make_case
    recs, seeds = {n: [] for n in NAMES}, {n: [] for n in NAMES}
    for i, o in outs:
        n = PLAN[tier][i]
        recs[n] += o[3]["data"]
        o[3]["data"] = len(o[3]["data"])
    cells, worst = {}, None
    for n in NAMES:
        bad, cells[n] = judge(n, recs[n])
        if bad and (worst is None or bad[0][2] > worst[0]):
            worst = (bad[0][2], n, bad[0])
    r = dict(evidence=dict(cells=cells, streams=sum(len(v) for v in recs.values())))
    if worst:
        n = worst[1]
        for i, o in outs:
            if PLAN[tier][i] == n:
                seeds[n] += make_case(pid, seed, tier, i)["seeds"]
        r["violation"] = (dict(kind="cell", cell=n, seeds=seeds[n]), worst[2][0], worst[2][1])
    return r


def shrink(case):
    s = case["seeds"]
    if case["kind"] == "chunk":
        for k in s:
            if len(s) > 1:
                yield dict(case, seeds=[k])
        return
    if len(s) >= 16:
        yield dict(case, seeds=s[:len(s) // 2])
        yield dict(case, seeds=s[len(s) // 2:])


def run(case, st):
    if case["kind"] == "chunk":
        for s in case["seeds"]:
            one(case["cell"], s, st)
        st.nontrivial = bool(st.data)
        st.mark(repr(st.data))
        return
    exact(case["cell"])
    for kind, out in proc.run_many(_seeds, [(case["cell"], case["seeds"][k::8]) for k in range(8) if case["seeds"][k::8]], cpu=3000, wall=3000):
        st.absorb(out)
    bad = judge(case["cell"], st.data)[0]
    if bad:
        raise Violation(bad[0][0], bad[0][1])


def _seeds(name, seeds):
    st = Stats()
    for s in seeds:
        one(name, s, st)
    return st.dump()
