#include "checks.hpp"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdio>

void to_json(json& j, const Case& c) { j = json{{"property", c.prop}, {"kind", c.kind}, {"seed", c.seed}, {"runs", c.runs}, {"extra", c.extra}}; }
void from_json(const json& j, Case& c)
{
  j.at("property").get_to(c.prop); j.at("kind").get_to(c.kind); j.at("seed").get_to(c.seed); j.at("runs").get_to(c.runs);
  if (j.contains("extra")) c.extra = j["extra"];
}
template <class M> static void addm(M& a, const M& b) { for (auto& kv : b) a[kv.first] += kv.second; }
void Stats::merge(const Stats& o)
{
  cases += o.cases; runs += o.runs; reruns += o.reruns; steps += o.steps; evals += o.evals; iters += o.iters; nontrivial += o.nontrivial; simtime += o.simtime;
  addm(kinds, o.kinds); addm(fired, o.fired); addm(probes, o.probes); addm(ends, o.ends); addm(notes, o.notes);
  scheds.insert(o.scheds.begin(), o.scheds.end()); traces.insert(o.traces.begin(), o.traces.end()); nt.insert(o.nt.begin(), o.nt.end());
}
#define SF(X) X(cases) X(runs) X(reruns) X(steps) X(evals) X(iters) X(nontrivial) X(simtime) X(kinds) X(fired) X(probes) X(ends) X(notes) X(scheds) X(traces) X(nt)
void to_json(json& j, const Stats& s) { j = json::object();
#define X(f) j[#f] = s.f;
  SF(X)
#undef X
}
void from_json(const json& j, Stats& s)
{
#define X(f) j.at(#f).get_to(s.f);
  SF(X)
#undef X
}

// ---------------------------------------------------------------- helpers
static std::string fmt(const char* f, ...)
{
  char b[1000];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}
static void fail(Outcome& o, const std::string& s) { if (o.bad.size() < 12) o.bad.push_back(s); }
static void fail(Verdict& v, int run, const std::string& s)
{
  if (v.bad.empty()) v.failing_run = run;
  if (v.bad.size() < 12) v.bad.push_back(s);
}

// what an oracle inside the child sees of one call
struct Facts
{
  int ic;
  const CallHist& h;
  const CallOut& c;
  const Call& cs;
  std::vector<JRec> rec;
  std::string tail, err;
  Model m;
  bool modelled = false;
  const std::vector<size_t>& marks() const { return h.marks[0]; }
};
typedef std::function<void(Outcome&, Facts&)> FactOracle;

static bool legit_exception(const Facts& f)
{
  double kT = ref::kb * f.cs.p.T;
  return f.m.ambiguous || (f.m.truncated && (f.m.pend_emax * 2.2e-16 / kT * f.cs.p.occ > 3e-12 || f.m.pend_amp > 1e4));
}

// runs the oracle of every finished or begun call; `model`: compare with the reference model
static Oracle with_facts(const RunSpec& spec, FactOracle fo, bool model = true, int fd = 0)
{
  return [&spec, fo, model, fd](Outcome& o) {
    json legit = json::array(), amb_it = json::array(), amb_ev = json::array();
    for (size_t ic = 0; ic < spec.calls.size() && ic < g_hist.size(); ++ic) {
      if (!g_hist[ic].phys) break;
      Facts f{(int)ic, g_hist[ic], o.calls[ic], spec.calls[ic], {}, "", "", Model(), false};
      const std::string& text = o.end == "done" || !f.c.journal.empty() ? f.c.journal : o.disk_journal;
      f.rec = parse_journal(text, f.tail, f.err);
      if (model) {
        std::vector<double> sl;
        for (auto& r : f.rec) sl.push_back(r.slope);
        f.m = run_model(f.h, &sl, 5e-3, fd);
        f.modelled = true;
        for (auto& i : f.m.it) {
          if (i.failed) o.probes["line search failed"]++;
          if (i.backtracked) o.probes["backtracking"]++;
          if (i.expansions) o.probes["negative curvature"]++;
          if (i.uphill) o.probes["conjugate direction uphill"]++;
        }
        if (f.m.ambiguous) o.probes["decision within rounding: " + f.m.why]++;
        if (f.m.gave_up) o.probes["gave up"]++;
        if (f.m.converged) o.probes["converged"]++;
        if (f.m.maxiter) o.probes["iteration limit"]++;
      }
      legit.push_back(model && legit_exception(f));
      amb_it.push_back(f.m.ambiguous ? (long)f.m.it.size() - 1 : 1000000);
      amb_ev.push_back(f.m.ambiguous ? (long)f.m.ev.size() - 1 : 1000000);
      if (fo) fo(o, f);
    }
    o.extra["legit"] = legit; o.extra["amb_it"] = amb_it; o.extra["amb_ev"] = amb_ev;
  };
}

static Outcome run1(const RunSpec& s, const Oracle& orc, Stats& st, Verdict& v, bool count = false)
{
  Outcome o = exec_run(s, orc, false, count);
  st.runs++; st.steps += o.steps; st.simtime += o.simtime;
  st.ends[o.ok ? o.end : "process ended"]++;
  for (auto& c : o.calls) { st.evals += c.nevals; st.iters += c.marks.size(); if (!c.res.empty() && c.res[0].status == 1) st.notes["call ended by " + c.res[0].etype + " " + c.res[0].what.substr(0, 40)]++; }
  addm(st.fired, o.fired); addm(st.probes, o.probes);
  if (o.ok) { if (s.nranks > 1) st.scheds.insert(o.sched); st.traces.insert(o.trace); }
  v.sig = hcomb(v.sig, o.ok ? o.trace : hstr(o.death));
  return o;
}
static bool same_result(const RankResult& a, const RankResult& b)
{
  return a.status == b.status && dbits(a.F) == dbits(b.F) && dbits(a.S) == dbits(b.S) && dbits(a.tolerance) == dbits(b.tolerance) && a.iter == b.iter &&
         a.converged == b.converged && a.etype == b.etype;
}
static std::string res_str(const RankResult& r)
{
  if (r.status == 1) return "exception " + r.etype + " " + r.what;
  if (r.status < 0) return "not finished";
  return fmt("F=%.15g S=%.15g tolerance=%.6g iter=%d converged=%d", r.F, r.S, r.tolerance, r.iter, (int)r.converged);
}
// the run has to end in order; exceptions only where double precision gives out
static bool in_order(const Outcome& o, Verdict& v, int run, bool allow_exc = false)
{
  for (auto& b : o.bad) fail(v, run, b);
  if (!o.ok) { fail(v, run, "process died: " + o.death); return false; }
  if (o.end != "done") { fail(v, run, o.end + ": " + o.end_detail); return false; }
  if (o.extra.contains("misuse")) fail(v, run, "misuse: " + o.extra["misuse"].dump());
  for (size_t c = 0; c < o.calls.size(); ++c) {
    auto& res = o.calls[c].res;
    for (size_t r = 1; r < res.size(); ++r)
      if (!same_result(res[0], res[r])) { fail(v, run, fmt("ranks differ: call %zu: rank 0: %s; rank %zu: %s", c, res_str(res[0]).c_str(), r, res_str(res[r]).c_str())); return false; }
    if (res[0].status == 1 && !allow_exc) {
      bool legit = o.extra.contains("legit") && c < o.extra["legit"].size() && o.extra["legit"][c].get<bool>();
      if (!legit) { fail(v, run, fmt("unexpected exception: call %zu: %s", c, res_str(res[0]).c_str())); return false; }
    }
  }
  return o.bad.empty();
}

static bool monotone(const Problem& p) { return p.smearing <= 2; }

// ---------------------------------------------------------------- generation
static Call rnd_call(Rng& g, const GenOpt& o) { Call c; c.p = gen_problem(g, o); c.a = gen_params(g, o); return c; }
static RunSpec rnd_run(Rng& g, const GenOpt& o, bool plain = false, int minranks = 1)
{
  RunSpec s;
  s.calls.push_back(rnd_call(g, o));
  auto& c = s.calls[0];
  int nk = nkeys(c.p);
  s.nranks = std::max(std::min(minranks, nk), gen_ranks(g, nk, g.p(0.1) ? 8 : 4));
  c.l = gen_layout(g, nk, s.nranks, plain);
  gen_sched(g, s);
  s.skip_newton = g.p(0.15);
  return s;
}
static void add_fault(RunSpec& s, const std::string& kind, const std::string& target, int rank, long nth, long count, double value, int call = 0)
{
  Fault f;
  f.kind = kind; f.target = target; f.rank = rank; f.nth = nth; f.count = count; f.value = value; f.call = call;
  s.faults.push_back(f);
}
// height by which trial points are lifted; sometimes they are lowered, which makes the search try ever longer steps
static double lift(Rng& g, double lo, double hi) { double v = g.logrange(lo, hi); return g.p(0.2) ? -v : v; }
// a further call in the same process: nothing of the first may show in it
static bool follow(Rng& g, RunSpec& s, double prob = 0.12)
{
  if (!g.p(prob)) return false;
  Call x;
  GenOpt o;
  int tries = 0;
  if (g.p(0.25)) x = s.calls[0];
  else { do { x = rnd_call(g, o); } while (nkeys(x.p) < s.nranks && ++tries < 50); x.p.T = std::max(x.p.T, 300.0); }
  x.l = gen_layout(g, nkeys(x.p), s.nranks, g.p(0.7));
  x.a.maxiter = g.in(2, 25);
  s.calls.push_back(x);
  if (g.p(0.4)) add_fault(s, "energy_block", g.p(0.5) ? "" : std::to_string(g.in(1, 6)), -1, g.below(6), 1, lift(g, 1e-3, 1), (int)s.calls.size() - 1);
  return true;
}
// a rank that stalls: its clock shows seconds to hours more than those of the others
static void slow_rank(Rng& g, RunSpec& s)
{
  add_fault(s, "clock_jump", "", g.below(s.nranks), g.below(40), g.p(0.5) ? 1 : g.in(2, 20), g.logrange(0.1, 1e5));
}
// energies that make the line search work hard; returns what was done
static std::string disturb(Rng& g, RunSpec& s, bool allow_noise = true)
{
  auto& p = s.calls[0].p;
  int mi = s.calls[0].a.maxiter;
  double u = g.u();
  if (u < 0.35) return "calm";
  if (u < 0.55) { add_fault(s, "energy_block", "", -1, g.below(std::min(mi, 12)), 1, lift(g, 1e-3, 10)); return "block"; }
  if (u < 0.62) { add_fault(s, "energy_block", "", -1, g.below(std::min(mi, 10)), g.in(2, 3), lift(g, 1e-3, 10)); return "block2"; }
  if (u < 0.68) { add_fault(s, "energy_block", std::to_string(g.in(1, 6)), -1, g.below(std::min(mi, 12)), 1, lift(g, 1e-3, 10)); return "partial block"; }
  if (u < 0.88 || !allow_noise) { p.landscape = g.in(1, 7); p.lamp = g.logrange(1e-3, 0.5); return "landscape"; }
  if (u < 0.94) { add_fault(s, "energy_add", "", -1, g.in(2, 30), g.in(1, 4), (g.p(0.5) ? 1 : -1) * g.logrange(1e-4, 10)); return "jump"; }
  add_fault(s, "energy_noise", "", -1, g.in(0, 20), g.in(1, 40), g.logrange(1e-8, 1));
  return "noise";
}

// ================================================================ C01
static Case gen_C01(Rng& g, Case c)
{
  if (g.p(0.45)) {
    c.kind = "schedules";
    GenOpt o; o.minkeys = 2;
    RunSpec s = rnd_run(g, o, false, 2);
    disturb(g, s);
    c.runs = {s, s};
    do { gen_sched(g, c.runs[1]); } while (c.runs[1].policy == s.policy && c.runs[1].sseed == s.sseed);
    if (g.p(0.3)) slow_rank(g, c.runs[1]);
    return c;
  }
  c.kind = "layouts";
  GenOpt o; o.minkeys = 2;
  RunSpec s = rnd_run(g, o, false, 2);
  if (g.p(0.3)) add_fault(s, "energy_block", "", -1, g.below(8), 1, g.logrange(1e-3, 1));
  RunSpec b = s;
  b.nranks = 1;
  b.calls[0].l = Layout();
  b.calls[0].l.assign.assign(nkeys(b.calls[0].p), 0);
  b.policy = "first";
  c.runs = {b, s};
  if (g.p(0.7)) c.runs[1].reduce_perm = 1 + g.below(1000000);
  if (g.p(0.4)) {
    RunSpec t = s;
    int nk = nkeys(t.calls[0].p);
    t.nranks = gen_ranks(g, nk, 8);
    t.calls[0].l = gen_layout(g, nk, t.nranks);
    t.reduce_perm = g.p(0.7) ? 1 + g.below(1000000) : 0;
    c.runs.push_back(t);
  }
  return c;
}
static void judge_C01(const Case& c, Stats& st, Verdict& v)
{
  std::vector<Outcome> O;
  for (size_t i = 0; i < c.runs.size(); ++i) {
    FactOracle fo = [](Outcome& o, Facts& f) {
      json F = json::array(), mu = json::array(), S = json::array(), ne = json::array();
      for (auto& r : f.rec) { F.push_back(r.F); mu.push_back(r.mu); S.push_back(r.entropy); }
      // conditioning of the chemical potential: density of states at each iteration
      json dos = json::array(), dev = json::array();
      double acc = 0;
      auto& P = *f.h.phys;
      double kT = ref::kb * P.p.T;
      for (auto& it : f.m.it) {
        double d = 0;
        auto& e = f.m.ev[it.state].e;
        for (size_t k = 0; k < e.size(); ++k) for (double x : e[k]) d += P.keys[k].w * ref::delta(P.p.smearing, (f.h.ev[it.state].mu[0] - x) / kT, P.p.occ);
        dos.push_back(std::abs(d));
        dev.push_back(acc);
        acc += it.tnoise;
        ne.push_back(f.h.ev[it.state].nel);
      }
      json lists = json::array();
      for (auto& r : f.rec) if (r.lists) { json l = json::array(); for (auto& kv : r.fn) { l.push_back({kv.first.first, kv.first.second, kv.second}); } lists.push_back({r.step, l}); }
      o.extra["diffs"] = f.m.diffs;
      o.extra["j"] = {{"F", F}, {"mu", mu}, {"S", S}, {"dos", dos}, {"dev", dev}, {"lists", lists}, {"spread", f.m.ev.empty() ? 0.0 : f.m.ev.back().amp}};
    };
    O.push_back(run1(c.runs[i], with_facts(c.runs[i], fo), st, v));
    if (!in_order(O.back(), v, (int)i)) return;
  }
  if (c.kind == "schedules") {
    v.nontrivial = O[0].calls[0].marks.size() > 1 && O[0].sched != O[1].sched;
    if (O[0].digest() != O[1].digest()) fail(v, 1, "timing changes the result: " + O[0].digest() + " / " + O[1].digest());
    else if (O[0].calls[0].journal != O[1].calls[0].journal) fail(v, 1, "timing changes the journal: the records of two schedules differ");
    return;
  }
  auto& a = O[0];
  long lim = a.extra["amb_it"][0].get<long>();
  auto& ja = a.extra["j"];
  for (size_t i = 1; i < O.size() && v.bad.empty(); ++i) {
    auto& b = O[i];
    auto& jb = b.extra["j"];
    long l2 = std::min(lim, b.extra["amb_it"][0].get<long>());
    if (a.extra["diffs"].empty() && !b.extra["diffs"].empty())
      fail(v, (int)i, fmt("the distributed run leaves the path of the minimiser: on %d ranks: %s", c.runs[i].nranks, b.extra["diffs"][0].get<std::string>().c_str()));
    size_t na = ja["F"].size(), nb = jb["F"].size();
    if (na >= 1 && nb >= 1) v.nontrivial = true;
    size_t n = std::min({na, nb, (size_t)std::max(0l, l2), (size_t)10});
    for (size_t k = 0; k < n && v.bad.empty(); ++k) {
      // sums are taken in another order; measured growth of the rounding from one iteration to the next, times 1e3 and more
      static const double gr[] = {1, 1e2, 1e4, 1e6, 1e8, 1e9, 1e9, 1e9, 1e9, 1e9};
      double dv = k < ja["dev"].size() ? ja["dev"][k].get<double>() : 1.0;
      double fa = ja["F"][k], fb = jb["F"][k], tol = (k < 3 ? 1e-11 * std::pow(30., (double)k) : 1e-7) * (1 + std::abs(fa)) + gr[k] * (dv + 1e-13), mtol = tol * 10;
      if (tol > 1e-2) break;
      if (k < 8 && !(std::abs(fa - fb) <= tol)) fail(v, (int)i, fmt("free energy depends on the distribution: iteration %zu: %.15g on one rank, %.15g on %d", k, fa, fb, c.runs[i].nranks));
      if (k < 8 && !(std::abs(ja["S"][k].get<double>() - jb["S"][k].get<double>()) <= tol)) fail(v, (int)i, fmt("entropy depends on the distribution: iteration %zu: %.15g on one rank, %.15g on %d", k, ja["S"][k].get<double>(), jb["S"][k].get<double>(), c.runs[i].nranks));
      if (k < ja["dos"].size() && ja["dos"][k].get<double>() > 1e-3 && k < 8) {
        double ma = ja["mu"][k], mb = jb["mu"][k];
        if (!(std::abs(ma - mb) <= mtol)) fail(v, (int)i, fmt("chemical potential depends on the distribution: iteration %zu: %.15g on one rank, %.15g on %d", k, ma, mb, c.runs[i].nranks));
      }
    }
    for (size_t k = 0; k < ja["lists"].size() && k < jb["lists"].size() && v.bad.empty(); ++k) {
      if ((long)ja["lists"][k][0].get<int>() >= std::min(l2, 1l)) continue;
      auto &x = ja["lists"][k][1], &y = jb["lists"][k][1];
      bool ok = x.size() == y.size();
      for (size_t q = 0; ok && q < x.size(); ++q) {
        ok = x[q][0] == y[q][0] && x[q][1] == y[q][1] && x[q][2].size() == y[q][2].size();
        for (size_t z = 0; ok && z < x[q][2].size(); ++z) ok = std::abs(x[q][2][z].get<double>() - y[q][2][z].get<double>()) < 1e-7;
      }
      if (!ok) fail(v, (int)i, fmt("occupations depend on the distribution: list at step %d", ja["lists"][k][0].get<int>()));
    }
    auto &ra = a.calls[0].res[0], &rb = b.calls[0].res[0];
    if (v.bad.empty() && l2 >= 1000000 && ra.status == 0 && rb.status == 0) {
      double dv = ja["dev"].empty() ? 1.0 : ja["dev"].back().get<double>();
      if (na <= 4 && nb <= 4 && na != nb && dv < 1e-10) fail(v, (int)i, fmt("number of iterations depends on the distribution: %zu on one rank, %zu on %d", na, nb, c.runs[i].nranks));
      if (ra.converged && rb.converged && dv < 1e-9) {
        double d = std::abs(ra.F - rb.F);
        st.notes["converged pairs"]++;
        if (!(d <= 1e-6 * (1 + std::abs(ra.F)) + 1e3 * c.runs[0].calls[0].a.tol)) fail(v, (int)i, fmt("final free energy depends on the distribution: %.15g on one rank, %.15g on %d", ra.F, rb.F, c.runs[i].nranks));
      }
    }
  }
}

// ================================================================ C02
static const std::vector<std::string> sym_cbs = {"compute", "set_fn", "get_total_energy", "set_chemical_potential", "print_info", "get_hphi", "get_fn", "get_ek", "get_C",
                                                 "nelectrons", "occupancy", "get_kpoint_weights", "get_energy_components", "get_chemical_potential"};
static Case gen_C02(Rng& g, Case c)
{
  GenOpt o; o.minkeys = 2;
  RunSpec s = rnd_run(g, o, false, 2);
  c.kind = disturb(g, s);
  if (g.p(0.25)) slow_rank(g, s);
  if (g.p(0.08)) { s.calls[0].a.tol = g.logrange(1e-17, 1e-12); s.calls[0].a.maxiter = g.in(40, 200); }   // down to where energies are only rounding
  if (g.p(0.35)) {
    c.kind = "throw";
    static const char* often[] = {"compute", "set_fn", "get_total_energy", "get_C"};
    std::string cb = g.p(0.5) ? std::string(often[g.below(4)]) : g.pick(sym_cbs);
    long nth = g.p(0.4) ? g.below(4) : g.below(60);
    add_fault(s, "host_throw", cb, -1, nth, 1, g.below(5));
  } else {
    if (g.p(0.1)) s.calls[0].a.maxiter = g.in(1, 3);
    if (follow(g, s)) c.kind += ", then another call";
  }
  c.runs = {s};
  return c;
}
static void ranks_in_step(Outcome& o, Facts& f)
{
  auto& h = f.h;
  for (size_t r = 1; r < h.cb.size(); ++r) {
    auto cnt = [&](size_t q, const char* n) { auto it = h.cb[q].find(n); return it == h.cb[q].end() ? 0l : it->second; };
    for (const char* n : {"compute", "set_fn", "set_chemical_potential", "print_info"})
      if (cnt(0, n) != cnt(r, n) && o.end == "done") fail(o, fmt("out of step: rank 0 called %s %ld times, rank %zu %ld times", n, cnt(0, n), r, cnt(r, n)));
    if (h.marks[r] != h.marks[0] && o.end == "done") fail(o, "out of step: iterations of the ranks fall on different evaluations");
  }
}
static void judge_C02(const Case& c, Stats& st, Verdict& v)
{
  auto& s = c.runs[0];
  Oracle base = with_facts(s, [](Outcome& o, Facts& f) { ranks_in_step(o, f); });
  Outcome o = run1(s, [base](Outcome& o) {
    base(o);
    if (o.end == "done") {
      auto key = [](int r) { std::vector<std::pair<std::string, uint64_t>> k; for (auto& x : S->colls[r]) if (x.members > 1 && x.kind != "call_end") k.push_back({x.kind, x.sig}); return k; };
      auto k0 = key(0);
      for (int r = 1; r < S->nranks; ++r) if (key(r) != k0) { fail(o, fmt("out of step: rank %d took part in other collective operations than rank 0", r)); break; }
      o.extra["ncoll"] = k0.size();
    }
  }, st, v);
  bool thrown = c.kind == "throw" && o.ok && [&] { for (auto& kv : o.fired) if (kv.first.rfind("host_throw", 0) == 0) return true; return false; }();
  if (!in_order(o, v, 0, thrown)) return;
  v.nontrivial = o.calls[0].nevals > 2;
  if (thrown) {
    st.notes["host error on all ranks"]++;
    for (auto& r : o.calls[0].res) if (r.status != 1) fail(v, 0, "error swallowed: the host raised an error on all ranks and a rank returned normally");
  }
}

// ================================================================ C03
static Case gen_C03(Rng& g, Case c)
{
  GenOpt o;
  RunSpec s = rnd_run(g, o, g.p(0.7));
  if (g.p(0.55)) { c.kind = "landscape"; s.calls[0].p.landscape = g.in(1, 7); s.calls[0].p.lamp = g.logrange(1e-4, 0.5); }
  else c.kind = "block";
  if (c.kind == "block" || g.p(0.3)) {
    int n = g.in(1, 3);
    for (int i = 0; i < n; ++i) add_fault(s, "energy_block", g.p(0.5) ? "" : std::to_string(g.in(1, 8)), -1, g.below(15), g.in(1, 2), g.logrange(1e-9, 1));
  }
  if (monotone(s.calls[0].p) && g.p(0.3)) {   // trial points that tie with the start of their iteration, up to a small difference
    c.kind = "tie";
    for (int i = 0, n = g.in(1, 4); i < n; ++i)
      add_fault(s, "energy_tie", g.p(0.4) ? "" : std::to_string(g.in(2, 8)), -1, g.below(15), g.in(1, 2), (g.p(0.75) ? 1 : -1) * g.logrange(1e-13, 1e-6));
  }
  if (g.p(0.2)) s.calls[0].a.maxiter = g.in(80, 200);
  if (g.p(0.15)) s.calls[0].a.tol = g.logrange(1e-13, 1e-10);
  if (follow(g, s)) c.kind += ", then another call";
  c.runs = {s};
  return c;
}
static void judge_C03(const Case& c, Stats& st, Verdict& v)
{
  auto& s = c.runs[0];
  Outcome o = run1(s, with_facts(s, [](Outcome& o, Facts& f) {
    for (size_t i = 1; i < f.rec.size(); ++i) {
      double a = f.rec[i - 1].F, b = f.rec[i].F;
      // a kept trial step was compared with these very numbers; after a failed line search the old state is evaluated again
      auto& km = f.marks();
      bool kept = i < km.size() && km[i] >= 1 && km[i] <= f.h.ev.size() && !f.h.ev[km[i] - 1].same;
      if (!(b <= a + (kept ? 1e-13 : 1e-10) * (1 + std::abs(a) + std::abs(f.rec[i].mu)))) { fail(o, fmt("free energy rises: reported %.15g at iteration %zu, %.15g at %zu", a, i - 1, b, i)); break; }
    }
    // from the states themselves
    auto& mk = f.marks();
    auto state_F = [&](size_t ev) { return f.h.ev[ev].E_rep + (monotone(f.cs.p) ? entropy_from_f(f.h, f.h.ev[ev].fn) : f.m.ev[ev].entropy); };
    size_t last = 0;
    for (size_t i = 0; i < mk.size(); ++i) {
      if (mk[i] < 2 || (!monotone(f.cs.p) && mk[i] - 1 >= f.m.ev.size())) break;
      last = i + 1;
      if (i == 0) continue;
      double a = state_F(mk[i - 1] - 1), b = state_F(mk[i] - 1);
      if (!(b <= a + 1e-10 * (1 + std::abs(a)))) { fail(o, fmt("free energy rises: state at the start of iteration %zu has %.15g, of %zu %.15g", i - 1, a, i, b)); break; }
    }
    if (f.m.maxiter && f.m.diffs.empty() && last == mk.size() && last > 0 && (monotone(f.cs.p) || f.m.ev.size() == f.h.ev.size())) {
      double a = state_F(mk.back() - 1), b = state_F(f.h.ev.size() - 1);
      if (!(b <= a + 1e-10 * (1 + std::abs(a)))) fail(o, fmt("free energy rises: the last iteration starts at %.15g and leaves %.15g", a, b));
    }
    // a kept trial point that the model rejects
    if (!f.m.diffs.empty() && f.m.diff_iter >= 0) {
      size_t i = (size_t)f.m.diff_iter;
      if (i + 1 < mk.size() && i < f.m.it.size() && mk[i + 1] <= f.h.ev.size() && monotone(f.cs.p)) {
        double a = state_F(mk[i] - 1), b = state_F(mk[i + 1] - 1);
        if (b > a + 1e-10 * (1 + std::abs(a))) fail(o, fmt("free energy rises: iteration %zu from %.15g to %.15g", i, a, b));
      }
    }
  }), st, v);
  in_order(o, v, 0);
  v.nontrivial = o.ok && (o.probes["backtracking"] > 0 || o.probes["line search failed"] > 0);
}

// ================================================================ C04
static Case gen_C04(Rng& g, Case c)
{
  double u = g.u();
  GenOpt o;
  if (u < 0.35) {
    c.kind = "wild";
    RunSpec s = rnd_run(g, o, g.p(0.7));
    s.calls[0].a.maxiter = g.in(1, 40);
    int n = g.in(1, 3);
    for (int i = 0; i < n; ++i) {
      if (g.p(0.6)) add_fault(s, "energy_noise", "", -1, g.below(20), g.p(0.5) ? 100000 : g.in(1, 30), g.logrange(1e-7, 100));
      else add_fault(s, "energy_add", "", -1, g.below(40), g.in(1, 10), (g.p(0.5) ? 1 : -1) * g.logrange(1e-5, 100));
    }
    if (g.p(0.4)) { s.calls[0].p.landscape = g.in(1, 7); s.calls[0].p.lamp = g.logrange(1e-3, 1); }
    if (g.p(0.12)) { if (g.p(0.7)) s.faults.clear(); s.calls[0].a.tol = g.logrange(1e-17, 1e-12); s.calls[0].a.maxiter = g.in(40, 200); }
    follow(g, s);
    c.runs = {s};
    return c;
  }
  o.easy = true; o.monotone = true;
  RunSpec s = rnd_run(g, o, g.p(0.7));
  s.calls[0].a.tol = g.logrange(1e-9, 1e-7);
  s.calls[0].a.maxiter = 250;
  s.calls[0].a.tau = g.p(0.6) ? 0.1 : g.range(0.1, 0.5);
  if (s.calls[0].a.restart > 20 && g.p(0.7)) s.calls[0].a.restart = g.in(1, 20);
  double val = g.logrange(1e-3, 10);
  int first = g.p(0.3) ? 0 : g.below(10);
  if (u < 0.65) { c.kind = "single"; add_fault(s, "energy_block", "", -1, first, 1, val); }
  else if (u < 0.8) { c.kind = "double"; add_fault(s, "energy_block", "", -1, first, g.in(2, 4), val); }
  else { c.kind = "repeat"; int n = g.in(2, 4); for (int i = 0; i < n; ++i) { add_fault(s, "energy_block", "", -1, first, 1, val); first += g.in(2, 5); } }
  c.runs = {s};
  if (c.kind != "double") { RunSpec b = s; b.faults.clear(); c.runs.push_back(b); }
  return c;
}
static void ends_as_model(Outcome& o, Facts& f, int from_iter)
{
  auto& m = f.m;
  if (!m.diffs.empty()) {
    if (m.diff_iter < 0 || m.diff_iter >= from_iter) fail(o, "wrong step: " + m.diffs[0]);
    return;
  }
  if (o.end != "done" || f.c.res.empty() || f.c.res[0].status != 0) return;
  auto& r = f.c.res[0];
  if (m.ambiguous) return;
  if (m.truncated) { fail(o, fmt("stopped early: the call returned after %zu evaluations where the search has to go on (iteration %zu)", f.h.ev.size(), m.it.empty() ? 0 : m.it.size() - 1)); return; }
  if (m.converged && !r.converged) fail(o, "wrong ending: the slope fell below the tolerance and the call does not report convergence");
  if (m.gave_up && r.converged) fail(o, "wrong ending: the search had to give up and the call reports convergence");
  if (m.maxiter && r.converged) fail(o, "wrong ending: the iterations were used up and the call reports convergence");
}
static void judge_C04(const Case& c, Stats& st, Verdict& v)
{
  std::vector<Outcome> O;
  for (size_t i = 0; i < c.runs.size(); ++i) {
    auto& s = c.runs[i];
    O.push_back(run1(s, with_facts(s, [](Outcome& o, Facts& f) {
      auto& a = f.cs.a;
      auto& mk = f.marks();
      if ((int)mk.size() > a.maxiter) fail(o, fmt("too many iterations: %zu with maxiter=%d", mk.size(), a.maxiter));
      double lo = 1e300, hi = -1e300;
      for (auto& e : f.h.ev) if (std::isfinite(e.E_rep)) { lo = std::min(lo, e.E_rep); hi = std::max(hi, e.E_rep); }
      double M = hi - lo + 10 + 100 * ref::kb * f.cs.p.T * f.cs.p.occ * (double)f.h.phys->maxb;
      for (size_t i = 0; i < mk.size(); ++i) {
        size_t end = i + 1 < mk.size() ? mk[i + 1] : f.h.ev.size();
        double sl = i < f.rec.size() ? std::abs(f.rec[i].slope) : a.tol;
        sl = std::max(sl, a.tol * 0.5);
        double bound = std::max(0.0, std::log(M / (0.2 * sl)) / std::log(5.0)) + 3 + std::log(2e7) / std::log(1 / a.tau) + 4;
        if ((double)(end - mk[i]) > bound) fail(o, fmt("too many evaluations: %zu in iteration %zu (bound %.0f)", end - mk[i], i, bound));
      }
      int from = 1 << 30;
      for (size_t i = 0; i < f.m.it.size(); ++i) if (f.m.it[i].failed) { from = (int)i; break; }
      ends_as_model(o, f, from);
      bool failed = from < (1 << 30);
      o.extra["failed"] = failed; o.extra["gave_up"] = f.m.gave_up; o.extra["mamb"] = f.m.ambiguous;
      o.extra["followed"] = f.m.diffs.empty() && !f.m.ambiguous && !f.m.truncated && f.m.converged && f.m.it.size() == mk.size();
    }), st, v));
    if (!in_order(O.back(), v, (int)i)) return;
  }
  bool failed = O[0].extra.value("failed", false);
  v.nontrivial = failed || (c.kind == "wild" && O[0].calls[0].nevals > 3);
  if (O.size() < 2) return;
  auto &ra = O[0].calls[0].res[0], &rb = O[1].calls[0].res[0];
  if (ra.status != 0 || rb.status != 0) return;
  long ib = (long)O[1].calls[0].marks.size();
  // without restarts conjugate gradients may crawl
  if (rb.converged && ib < 60 && c.runs[0].calls[0].a.restart <= 20 && !ra.converged && !O[0].extra.value("gave_up", false) && !O[0].extra.value("mamb", true))
    fail(v, 0, fmt("does not recover: the undisturbed run converges in %ld iterations, the disturbed one does not in %d", ib, c.runs[0].calls[0].a.maxiter));
  if (rb.converged && ra.converged) {
    st.notes["recovered and compared"]++;
    double tol = 1e-6 + 1e3 * c.runs[0].calls[0].a.tol;
    if (std::abs(ra.F - rb.F) <= tol) return;
    // the free energy may have several stationary points: not held against runs the model follows to the end
    if (O[0].extra.value("followed", false) && O[1].extra.value("followed", false)) { st.notes["another stationary point, as the model"]++; return; }
    if (ra.F < rb.F || O[0].extra.value("mamb", true) || O[1].extra.value("mamb", true)) { st.notes["another stationary point"]++; return; }
    fail(v, 0, fmt("another minimum: F=%.12g after a transient disturbance, %.12g without", ra.F, rb.F));
  }
}

// ================================================================ C05
static Case gen_C05(Rng& g, Case c)
{
  GenOpt o;
  RunSpec s = rnd_run(g, o, g.p(0.5));
  if (g.p(0.1)) {
    c.kind = "capacity";
    auto& p = s.calls[0].p;
    p.ne = p.occ * p.nb * p.nspin + g.in(1, 5);
    c.runs = {s};
    return c;
  }
  s.skip_newton = g.p(0.4);
  c.kind = disturb(g, s);
  if (g.p(0.15)) s.calls[0].p.init = g.in(2, 3);
  if (g.p(0.1)) s.calls[0].p.T = g.logrange(60, 400);
  if (follow(g, s)) c.kind += ", then another call";
  c.runs = {s};
  return c;
}
static void judge_C05(const Case& c, Stats& st, Verdict& v)
{
  auto& s = c.runs[0];
  bool cap = c.kind == "capacity";
  Outcome o = run1(s, with_facts(s, [cap](Outcome& o, Facts& f) {
    auto& P = *f.h.phys;
    double kT = ref::kb * P.p.T, occ = P.p.occ;
    bool mono = monotone(P.p);
    for (size_t i = 1; i < f.h.ev.size() && !cap; ++i) {
      auto& e = f.h.ev[i];
      if (!e.fn_set) fail(o, fmt("occupations not set: evaluation %zu", i));
      if (!(std::abs(e.nel - P.p.ne) <= (mono ? 1e-9 : 1e-2))) fail(o, fmt("electron number: %.15g instead of %d in evaluation %zu", e.nel, P.p.ne, i));
      for (auto& v : e.fn) for (double x : v) {
        if (mono && !(x >= -1e-12 && x <= occ * (1 + 1e-12))) fail(o, fmt("occupation out of range: %.15g in evaluation %zu", x, i));
        if (!std::isfinite(x)) fail(o, fmt("occupation out of range: %g in evaluation %zu", x, i));
      }
      for (size_t r = 1; r < e.mu.size(); ++r)
        if (dbits(e.mu[r]) != dbits(e.mu[0]) && !(std::isnan(e.mu[r]) && std::isnan(e.mu[0]))) fail(o, fmt("chemical potential differs between ranks: %.17g and %.17g in evaluation %zu", e.mu[0], e.mu[r], i));
      bool lastthrow = i + 1 == f.h.ev.size() && !f.c.res.empty() && f.c.res[0].status != 0;
      if (std::isnan(e.mu[0]) && !lastthrow) fail(o, fmt("chemical potential not reported: evaluation %zu", i));
    }
    if (f.m.bad_fn) fail(o, "occupations are not the smearing function: " + f.m.diffs[0]);
    auto& mk = f.marks();
    for (size_t q = 0; q < f.rec.size() && q < mk.size(); ++q) {
      if (mk[q] < 1) continue;
      auto& r = f.rec[q];
      auto& e = f.h.ev[mk[q] - 1];
      if (std::isfinite(e.mu[0]) && !(std::abs(r.mu - e.mu[0]) <= 1e-12 * (1 + std::abs(r.mu)))) fail(o, fmt("chemical potential of record %zu is %.15g, reported to the host was %.15g", q, r.mu, e.mu[0]));
      if (!r.lists) continue;
      for (size_t k = 0; k < P.keys.size(); ++k) {
        auto a = r.eta.find(P.keys[k].key), b = r.fn.find(P.keys[k].key);
        if (a == r.eta.end() || b == r.fn.end() || a->second.size() != (size_t)P.keys[k].nb || b->second.size() != (size_t)P.keys[k].nb) { fail(o, fmt("occupations of the journal: k-point missing at step %zu", q)); break; }
        for (int j = 0; j < P.keys[k].nb; ++j) {
          double f2 = b->second[j], fr = ref::fn(P.p.smearing, (r.mu - a->second[j]) / kT, occ);
          if (!(std::abs(f2 - fr) <= 1e-8 + occ / kT * 1e-13 * (1 + std::abs(a->second[j])))) fail(o, fmt("occupations are not the smearing function: step %zu k-point %zu band %d: f=%.12g, smearing gives %.12g", q, k, j, f2, fr));
          if (!(std::abs(f2 - e.fn[k][j]) <= 1e-12)) fail(o, fmt("occupations of the journal: step %zu k-point %zu band %d: %.15g, the host was given %.15g", q, k, j, f2, e.fn[k][j]));
        }
      }
    }
  }), st, v);
  if (!in_order(o, v, 0, cap)) return;
  v.nontrivial = o.calls[0].nevals > 3;
  if (cap) {
    v.nontrivial = true;
    for (auto& r : o.calls[0].res) if (r.status != 1) fail(v, 0, "no chemical potential: more electrons than the bands can hold and the call returned normally");
    if (o.calls[0].nevals > 1) fail(v, 0, fmt("no chemical potential: the call went on to evaluation %zu", o.calls[0].nevals - 1));
  }
}

// ================================================================ C06
static Case gen_C06(Rng& g, Case c)
{
  GenOpt o;
  RunSpec s = rnd_run(g, o, g.p(0.5));
  c.kind = disturb(g, s);
  if (g.p(0.3)) {
    c.kind += " long";
    s.calls[0].a.tol = g.logrange(1e-15, 1e-11);
    s.calls[0].a.maxiter = g.in(100, 300);
    s.calls[0].a.restart = g.p(0.5) ? 1000000 : g.in(1, 50);
  }
  if (g.p(0.2)) for (int i = 0, n = g.in(2, 6), at = g.below(6); i < n; ++i, at += g.in(2, 4)) add_fault(s, "energy_block", "", -1, at, 1, lift(g, 1e-3, 1));
  if (g.p(0.3)) s.calls[0].p.overlap = g.range(0.8, 3.0);
  if (g.p(0.1)) s.calls[0].a.kappa = g.logrange(1, 10);
  if (follow(g, s)) c.kind += ", then another call";
  c.runs = {s};
  return c;
}
static void judge_C06(const Case& c, Stats& st, Verdict& v)
{
  auto& s = c.runs[0];
  Outcome o = run1(s, with_facts(s, [](Outcome& o, Facts& f) {
    double worst = 0;
    for (size_t i = 1; i < f.h.ev.size(); ++i) {
      double q = f.h.ev[i].ortho;
      bool cov = i < f.m.ev.size();
      // rounding of one orthonormalisation of a step of the length the model knows; without it, of a very long step
      if (!cov && f.m.ambiguous) break;   // the length of the step is not known
      double lim = cov ? 1e-9 + 1e-13 * f.m.ev[i].amp * f.m.ev[i].amp : 1e-3;
      if (cov && f.m.ev[i].amp > 1e4) lim = 1e-2;
      if (!(q <= lim)) { fail(o, fmt("not orthonormal: |X^H S X - 1| = %.3g in evaluation %zu of %zu (iteration %d)", q, i, f.h.ev.size(), f.h.ev[i].iter)); break; }
      worst = std::max(worst, q);
    }
    o.extra["worst"] = worst;
  }), st, v);
  in_order(o, v, 0);
  v.nontrivial = o.ok && o.calls[0].nevals > 3;
}

// ================================================================ C07
// the table in nlcg.out and on standard output: iteration, free energy, residual, then three lines of the same state
struct Row { int step = -1; double F = 0, slope = 0, ent = 0, mu = 0, ks = 0; bool full = false; };
static std::vector<Row> parse_table(const std::string& text)
{
  std::vector<Row> t;
  std::istringstream is(text);
  std::string l, prev;
  auto val = [](const std::string& x) { auto c = x.rfind(':'); return c == std::string::npos ? NAN : atof(x.c_str() + c + 1); };
  while (std::getline(is, l)) {
    if (l.find("kT * S       :") != std::string::npos) {
      Row r; char* e;
      r.step = (int)strtol(prev.c_str(), &e, 10);
      r.F = strtod(e, &e); r.slope = strtod(e, &e);
      r.ent = val(l);
      bool a = (bool)std::getline(is, l) && l.find("Fermi energy") != std::string::npos; if (a) r.mu = val(l);
      bool b = a && (bool)std::getline(is, l) && l.find("KS energy") != std::string::npos && !is.eof(); if (b) r.ks = val(l);
      r.full = b;
      t.push_back(r);
    }
    prev = l;
  }
  return t;
}
static void check_table(Outcome& o, Facts& f)
{
  if (o.end != "done" || f.c.res.empty() || f.c.res[0].status != 0) return;
  auto near = [](double p, double x) { return std::abs(p - x) <= 1e-13 + 2e-13 * std::abs(x); };
  auto cmp = [&](const char* where, std::vector<Row> t, bool append) {
    if (append && t.size() > f.rec.size()) t.erase(t.begin(), t.end() - f.rec.size());
    if (t.size() != f.rec.size()) { fail(o, fmt("%s shows %zu iterations, the journal has %zu", where, t.size(), f.rec.size())); return; }
    for (size_t i = 0; i < t.size(); ++i) {
      auto& a = t[i]; auto& r = f.rec[i];
      const char* w = nullptr;
      if (!a.full || a.step != r.step) w = "iteration number";
      else if (!near(a.F, r.F)) w = "free energy";
      else if (!near(a.ent, r.entropy)) w = "entropy";
      else if (!near(a.mu, r.mu)) w = "Fermi energy";
      else if (!near(a.ks, r.EKS)) w = "Kohn-Sham energy";
      else if (std::isfinite(r.slope) && !near(a.slope, r.slope)) w = "residual";
      if (w) { fail(o, fmt("%s: %s of iteration %zu is not that of the journal", where, w, i)); return; }
    }
  };
  if (f.c.have_log) cmp("nlcg.out", parse_table(f.c.log), false);
  cmp("standard output", parse_table(f.c.sout), true);
}
static Case gen_C07(Rng& g, Case c)
{
  GenOpt o;
  RunSpec s = rnd_run(g, o, g.p(0.6));
  c.kind = disturb(g, s);
  if (g.p(0.1)) s.calls[0].a.maxiter = g.in(1, 4);
  if (follow(g, s)) c.kind += ", then another call";
  c.runs = {s};
  return c;
}
static void judge_C07(const Case& c, Stats& st, Verdict& v)
{
  auto& s = c.runs[0];
  Outcome o = run1(s, with_facts(s, [](Outcome& o, Facts& f) {
    auto& mk = f.marks();
    auto& P = *f.h.phys;
    if (f.rec.size() < mk.size()) { fail(o, fmt("record missing: %zu records of %zu iterations", f.rec.size(), mk.size())); return; }
    for (size_t i = 0; i < mk.size(); ++i) {
      auto& r = f.rec[i];
      if (mk[i] < 2) { fail(o, "no state evaluated before the first record"); return; }
      auto& e = f.h.ev[mk[i] - 1];
      if (!(std::abs(r.EKS - e.E_rep) <= 1e-13 * (1 + std::abs(e.E_rep)))) fail(o, fmt("Kohn-Sham energy of record %zu is %.15g, the host gave %.15g for the current state", i, r.EKS, e.E_rep));
      if (!(std::abs(r.mu - e.mu[0]) <= 1e-13 * (1 + std::abs(r.mu)))) fail(o, fmt("Fermi energy of record %zu is %.15g, of the current state %.15g", i, r.mu, e.mu[0]));
      if (!(std::abs(r.F - (r.EKS + r.entropy)) <= 1e-12 * (1 + std::abs(r.F)))) fail(o, fmt("free energy of record %zu is %.15g, energy plus entropy %.15g", i, r.F, r.EKS + r.entropy));
      double ent; bool have = true;
      if (monotone(P.p)) ent = entropy_from_f(f.h, e.fn);
      else if (mk[i] - 1 < f.m.ev.size()) ent = f.m.ev[mk[i] - 1].entropy;
      else have = false;
      // rounding: occupations are known to 1e-16, pseudo eigenvalues of the model to its own limit
      double lim = 1e-9 * (1 + std::abs(ent));
      if (!monotone(P.p) && have) { auto& me = f.m.ev[mk[i] - 1]; lim += 1e-7 + 1e-5 * me.zsize + 10 * ref::kb * P.p.T * me.dfn; }
      if (have && !(std::abs(r.entropy - ent) <= lim)) fail(o, fmt("entropy of record %zu is %.12g, of the current state %.12g", i, r.entropy, ent));
      if (o.bad.size()) return;
    }
    if (o.end != "done" || f.c.res.empty() || f.c.res[0].status != 0 || mk.empty()) return;
    check_table(o, f);
    for (auto& q : f.c.res) {
      auto& r = f.rec[mk.size() - 1];
      if (!(std::abs(q.F - r.F) <= 1e-13 * (1 + std::abs(r.F)))) fail(o, fmt("returned free energy %.15g, last record %.15g", q.F, r.F));
      if (!(std::abs(q.S - r.entropy) <= 1e-13 * (1 + std::abs(r.entropy)))) fail(o, fmt("returned entropy %.15g, last record %.15g", q.S, r.entropy));
      if (q.iter != (int)mk.size() - 1) fail(o, fmt("returned iteration %d, last iteration begun %zu", q.iter, mk.size() - 1));
      if (q.converged) {
        if (mk.back() != f.h.ev.size()) fail(o, "state left in the host: evaluations were made after the returned values");
        for (size_t k = 0; k < f.h.final_same.size(); ++k)
          if (!f.h.final_same[k]) fail(o, fmt("state left in the host: wave functions, occupations or chemical potential of rank %zu are not those of the returned values", k));
      }
    }
  }), st, v);
  in_order(o, v, 0);
  v.nontrivial = o.ok && o.calls[0].marks.size() > 1;
}

// ================================================================ C08
static Case gen_C08(Rng& g, Case c)
{
  GenOpt o;
  double u = g.u();
  if (u < 0.25) {
    c.kind = "tighter";
    o.easy = true;
    RunSpec s = rnd_run(g, o, true);
    s.calls[0].a.maxiter = 250;
    s.calls[0].a.tol = g.logrange(1e-8, 1e-4);
    s.calls[0].p.coupling = std::min(s.calls[0].p.coupling, 0.4);
    RunSpec t = s;
    t.calls[0].a.tol = s.calls[0].a.tol * 1e-3;
    t.calls[0].a.maxiter = 600;
    c.runs = {s, t};
    return c;
  }
  RunSpec s = rnd_run(g, o, g.p(0.6));
  c.kind = "slope";
  if (g.p(0.3)) {
    c.kind = "degenerate";
    s.calls[0].p.init = g.in(2, 3);
    if (g.p(0.6)) s.calls[0].a.kappa = g.logrange(1, 30);   // the pseudo-Hamiltonian dominates the slope
    if (g.p(0.4)) { s.calls[0].p.init = 3; s.calls[0].p.T = g.logrange(400, 1000); }   // gaps that are not small against kT
  }
  else if (g.p(0.3)) add_fault(s, "energy_block", g.p(0.5) ? "" : std::to_string(g.in(2, 6)), -1, g.below(10), 1, g.logrange(1e-3, 1));
  if (g.p(0.1)) s.calls[0].a.maxiter = g.in(1, 4);
  if (follow(g, s)) c.kind += ", then another call";
  c.runs = {s};
  return c;
}
static void check_slopes(Outcome& o, Facts& f, int fdn)
{
  auto& mk = f.marks();
  for (auto& it : f.m.it) o.extra["mslope"].push_back(it.slope);
  auto& a = f.cs.a;
  for (size_t i = 0; i < f.m.it.size() && i < f.rec.size(); ++i) {
    auto& it = f.m.it[i];
    bool last_amb = f.m.ambiguous && i + 1 == f.m.it.size();
    if (!f.m.diffs.empty() && i + 1 >= f.m.it.size()) break;
    if (last_amb && f.m.why == "density of states cancels") break;
    double sl = f.rec[i].slope;
    if (!std::isnan(it.fd) && std::abs(it.fd) > 1e-7 && it.fdnoise < 3e-3 * std::abs(it.fd)) {
      o.extra["fdn"] = o.extra.value("fdn", 0) + 1;
      if (!(std::abs(sl - it.fd) <= 1e-2 * std::abs(it.fd) + 3 * it.fdnoise + 10 * it.noise)) { fail(o, fmt("residual is not the slope: iteration %zu reports %.9g, the free energy along its direction changes by %.9g", i, sl, it.fd)); return; }
    }
    if (!(std::abs(sl - it.slope) <= 1e-3 * std::abs(it.slope) + 10 * it.noise + 2e-8 * std::sqrt(std::abs(it.slope)))) { fail(o, fmt("residual is not the slope: iteration %zu reports %.9g, the model has %.9g", i, sl, it.slope)); return; }
  }
  for (size_t i = 0; i < f.rec.size(); ++i) {
    bool below = std::abs(f.rec[i].slope) < a.tol;
    if (below && i + 1 < f.rec.size()) { fail(o, fmt("goes on below the tolerance: iteration %zu has residual %.6g, tolerance %.6g", i, f.rec[i].slope, a.tol)); return; }
  }
  if (o.end != "done" || f.c.res.empty() || f.c.res[0].status != 0 || f.rec.empty()) return;
  for (auto& q : f.c.res) {
    double sl = f.rec.back().slope;
    if (dbits(q.tolerance) != dbits(sl)) fail(o, fmt("returned residual %.9g, last record %.9g", q.tolerance, sl));
    bool below = std::abs(sl) < a.tol;
    if (below != q.converged) fail(o, fmt("convergence flag: residual %.9g, tolerance %.6g, converged=%d", sl, a.tol, (int)q.converged));
  }
}
static void judge_C08(const Case& c, Stats& st, Verdict& v)
{
  std::vector<Outcome> O;
  for (size_t i = 0; i < c.runs.size(); ++i) {
    auto& s = c.runs[i];
    O.push_back(run1(s, with_facts(s, [](Outcome& o, Facts& f) { check_slopes(o, f, 0); }, true, 8), st, v));
    st.notes["slopes checked by differences"] += O.back().ok ? O.back().extra.value("fdn", 0) : 0;
    if (!in_order(O.back(), v, (int)i)) return;
  }
  v.nontrivial = O[0].calls[0].marks.size() > 1;
  if (c.kind == "tighter") {
    auto &ra = O[0].calls[0].res[0], &rb = O[1].calls[0].res[0];
    if (ra.status == 0 && rb.status == 0 && ra.converged) {
      double tol = c.runs[0].calls[0].a.tol, lim = 1e-8 + 3e3 * tol;
      // a saddle point or a shoulder of the free energy is a legitimate place to stop: there the true
      // slope (the model's) grows again in the longer run
      size_t n0 = O[0].calls[0].marks.size();
      bool saddle = !O[1].extra.contains("mslope");
      if (!saddle) { auto& ms = O[1].extra["mslope"]; if (ms.size() < O[1].calls[0].marks.size()) saddle = true; for (size_t i = n0; i < ms.size(); ++i) if (!ms[i].is_number() || std::abs(ms[i].get<double>()) > 30 * tol) saddle = true; }
      if (saddle) { st.notes["stationarity: saddle, shoulder or not followed to the end"]++; return; }
      st.notes["stationarity compared"]++;
      if (!(rb.F >= ra.F - lim)) fail(v, 1, fmt("not stationary: converged at F=%.12g with tolerance %.3g, a longer run finds %.12g", ra.F, c.runs[0].calls[0].a.tol, rb.F));
    }
  }
}

// ================================================================ C09
static RunSpec short_run(Rng& g, int maxit, bool plain)
{
  GenOpt o;
  RunSpec s = rnd_run(g, o, plain);
  s.calls[0].a.maxiter = g.in(2, maxit);
  return s;
}
static std::string garbage(Rng& g)
{
  std::string t;
  if (g.p(0.5)) t = "{\"F\": 1.0, \"step\": 99, \"type\": \"nlcg\"}\nNLCG SUCCESS\n";
  else { int n = g.in(1, 4000); for (int i = 0; i < n; ++i) t += (char)(32 + g.below(90)); }
  return t;
}
static Case gen_C09(Rng& g, Case c)
{
  double u = g.u();
  RunSpec s = short_run(g, g.p(0.4) ? 45 : 12, g.p(0.6));
  if (g.p(0.3)) { s.calls[0].a.tol = g.logrange(1e-5, 1e-2); }
  if (g.p(0.4)) { if (g.p(0.8)) s.files["nlcg.json"] = garbage(g); if (g.p(0.8)) s.files["nlcg.out"] = garbage(g); }
  if (u < 0.3) {
    c.kind = "plain";
    disturb(g, s);
    if (g.p(0.06)) {   // a long journal
      auto& a = s.calls[0].a;
      a.maxiter = g.in(90, 260); a.tol = g.logrange(1e-17, 1e-12); a.restart = g.p(0.7) ? 1 : g.in(2, 300);
    }
    if (g.p(0.08)) { s.calls[0].a.maxiter = g.in(0, 1); if (g.p(0.7)) s.files["nlcg.json"] = garbage(g); }
    if (follow(g, s, 0.35)) c.kind = "plain, then another call";
    c.runs = {s};
    return c;
  }
  if (g.p(0.4)) disturb(g, s);
  RunSpec b = s;
  // how long is it?
  Outcome d = exec_run(b, nullptr);
  long steps = d.ok ? std::max(10l, d.steps) : 100, io = d.ok ? std::max(3l, d.io_ops) : 10;
  int nev = d.ok && !d.calls.empty() ? (int)d.calls[0].nevals : 1;
  (void)nev;
  if (u < 0.55) { c.kind = "crash"; add_fault(s, "crash", "", -1, 1 + (long)(g.u() * steps), 1, 0); }
  else if (u < 0.8) {
    c.kind = "torn";
    add_fault(s, "crash_io", "", -1, (long)(g.u() * io), 1, g.p(0.3) ? (g.p(0.5) ? 0.0 : 1.0) : g.u());
  } else {
    c.kind = "interrupted";
    int n = g.in(1, 4);
    for (int i = 0; i < n; ++i) {
      const char* file = g.p(0.7) ? "nlcg.json" : "nlcg.out";
      if (g.p(0.5)) add_fault(s, "io_short", file, -1, g.below(15), g.in(1, 3), 0);
      else add_fault(s, "io_write", file, -1, g.below(15), g.in(1, 3), EINTR);
    }
  }
  c.runs = {s, b};
  return c;
}
static void check_journal(Outcome& o, Facts& f)
{
  auto& mk = f.marks();
  auto& P = *f.h.phys;
  if (!f.err.empty()) fail(o, "journal: " + f.err);
  if (!f.tail.empty()) fail(o, "journal: incomplete record after a call that ended");
  if (f.rec.size() != mk.size()) { fail(o, fmt("journal: %zu records of %zu iterations", f.rec.size(), mk.size())); return; }
  for (size_t i = 0; i < f.rec.size(); ++i) {
    auto& r = f.rec[i];
    if (r.step != (int)i) fail(o, fmt("journal: record %zu has step %d", i, r.step));
    bool want = i % 10 == 0;
    if (r.lists != want) fail(o, fmt("journal: lists %s in record %zu", r.lists ? "unexpected" : "missing", i));
    if (want) {
      if (r.eta.size() != P.keys.size() || r.fn.size() != P.keys.size()) fail(o, fmt("journal: record %zu lists %zu and %zu of %zu k-points", i, r.eta.size(), r.fn.size(), P.keys.size()));
      for (auto& k : P.keys) {
        if (!r.eta.count(k.key) || !r.fn.count(k.key) || (int)r.eta[k.key].size() != k.nb || (int)r.fn[k.key].size() != k.nb) { fail(o, fmt("journal: record %zu lacks values of k-point (%d,%d)", i, k.key.first, k.key.second)); break; }
        if (mk[i] >= 2) {
          auto& e = f.h.ev[mk[i] - 1];
          size_t kk = &k - &P.keys[0];
          for (int j = 0; j < k.nb; ++j) if (!(std::abs(r.fn[k.key][j] - e.fn[kk][j]) <= 1e-12)) { fail(o, fmt("journal: occupations of record %zu are not those of its iteration", i)); break; }
          double kT = ref::kb * P.p.T, mu = e.mu[0];
          for (int j = 0; j < k.nb; ++j) {
            double want = ref::fn(P.p.smearing, (mu - r.eta[k.key][j]) / kT, P.p.occ);
            if (!(std::abs(want - e.fn[kk][j]) <= 1e-10 + 1e-13 * (1 + std::abs(mu)) / kT)) { fail(o, fmt("journal: pseudo-eigenvalues of record %zu are not those of its iteration", i)); break; }
          }
        }
      }
    }
    if (mk[i] >= 2) {
      auto& e = f.h.ev[mk[i] - 1];
      if (!(std::abs(r.EKS - e.E_rep) <= 1e-13 * (1 + std::abs(r.EKS))) || !(std::abs(r.mu - e.mu[0]) <= 1e-13 * (1 + std::abs(r.mu)))) fail(o, fmt("journal: record %zu does not hold the values of its iteration", i));
    }
    if (!std::isfinite(r.F) || !std::isfinite(r.slope) || !std::isfinite(r.entropy)) fail(o, fmt("journal: record %zu lacks a value", i));
    if (o.bad.size()) return;
  }
}
static void check_writers(Outcome& o, int nr)
{
  std::map<std::pair<std::string, int>, std::set<int>> w;
  for (auto& x : S->io) if (x.op == "write" && x.len > 0) w[{x.path, x.call}].insert(x.rank);
  for (auto& kv : w) if (kv.second.size() > 1) fail(o, "several writers: " + kv.first.first + " is written by more than one rank");
  std::set<int> so;
  for (int r = 0; r < nr; ++r) if (!S->out[r].empty()) so.insert(r);
  if (so.size() > 1) fail(o, "several writers: more than one rank writes to standard output");
  if (so.size() == 1 && *so.begin() != 0) fail(o, "several writers: another rank than the first writes to standard output");
  for (auto& kv : w) if (kv.first.first == "nlcg.out" && *kv.second.begin() != 0) fail(o, "several writers: another rank than the first writes nlcg.out");
}
static void check_success(Outcome& o, Facts& f)
{
  if (f.c.res.empty() || f.c.res[0].status != 0) return;
  bool conv = f.c.res[0].converged, said = f.c.log.find("NLCG SUCCESS") != std::string::npos;
  if (!f.c.have_log) fail(o, "log: nlcg.out is missing");
  else if (conv != said) fail(o, conv ? "log: converged and nlcg.out does not say NLCG SUCCESS" : "log: not converged and nlcg.out says NLCG SUCCESS");
}
static void judge_C09(const Case& c, Stats& st, Verdict& v)
{
  auto& s = c.runs[0];
  bool crash = c.kind == "crash" || c.kind == "torn";
  Outcome b;
  if (c.runs.size() > 1) {
    b = run1(c.runs[1], with_facts(c.runs[1], nullptr), st, v);
    if (!in_order(b, v, 1)) return;
  }
  bool crash_free = true;
  for (auto& x : s.faults) if (x.kind.compare(0, 3, "io_") == 0 || x.kind == "stdout_fail") crash_free = false;
  Outcome o = run1(s, with_facts(s, [crash, crash_free, &s](Outcome& o, Facts& f) {
    check_writers(o, s.nranks);
    if (o.end == "done") { check_journal(o, f); check_success(o, f); if (crash_free) check_table(o, f); }
    else if (o.end == "crashed") {
      // the rank that writes the journal
      int writer = f.cs.l.comm == 2 ? s.nranks - 1 : 0;
      int need = 0;
      for (auto& e : f.h.ev) need = std::max(need, e.iter + 1);
      for (auto& x : S->io) if (x.path == "nlcg.json" && x.op == "write" && x.len > 0) writer = x.rank;
      need = std::max(need, f.h.requested[writer] + 1);
      o.extra["need"] = need;
      o.extra["begun"] = !f.h.ev.empty();
      o.extra["requested_any"] = *std::max_element(f.h.requested.begin(), f.h.requested.end());
    }
  }, true), st, v);
  if (crash && o.ok && o.end == "crashed") {
    for (auto& x : o.bad) fail(v, 0, x);
    std::string tail, err;
    auto rec = parse_journal(o.disk_journal, tail, err);
    const std::string& full = b.calls[0].journal;
    std::string t2, e2;
    auto rfull = parse_journal(full, t2, e2);
    size_t need = o.extra.value("need", 0);
    v.nontrivial = need > 0;
    if (!o.extra.value("begun", false)) {
      // before the first evaluation the old journal may still be there
      return;
    }
    if (!err.empty()) fail(v, 0, "journal after a crash: " + err);
    if (rec.size() < need) fail(v, 0, fmt("journal after a crash: %zu complete records, %zu iterations had asked for energies", rec.size(), need));
    if (rec.size() > rfull.size()) fail(v, 0, fmt("journal after a crash: %zu records, the run without a crash has %zu", rec.size(), rfull.size()));
    for (size_t i = 0; i < rec.size() && i < rfull.size(); ++i) if (rec[i].text != rfull[i].text) { fail(v, 0, fmt("journal after a crash: record %zu differs from the run without a crash", i)); break; }
    auto trim = [](std::string x) { while (!x.empty() && isspace((unsigned char)x.back())) x.pop_back(); return x; };
    std::string tt = trim(tail);
    if (!tt.empty() && v.bad.empty()) {
      if (rec.size() >= rfull.size() || rfull[rec.size()].text.compare(0, tt.size(), tt) != 0) fail(v, 0, "journal after a crash: the rest behind the last record is not the beginning of the next one");
    }
    return;
  }
  if (!in_order(o, v, 0)) return;
  v.nontrivial = o.calls[0].marks.size() > 1;
  if (o.calls[0].marks.size() > 100) st.notes["journals of more than 100 records"]++;
  if (c.kind == "interrupted" && o.calls[0].journal != b.calls[0].journal) fail(v, 0, "interrupted writes change the journal");
}

// ================================================================ C10
static Case gen_C10(Rng& g, Case c)
{
  RunSpec s = short_run(g, g.p(0.3) ? 45 : 14, g.p(0.6));
  if (g.p(0.4)) disturb(g, s);
  if (g.p(0.3)) { s.files["nlcg.json"] = garbage(g); s.files["nlcg.out"] = garbage(g); }
  bool more = follow(g, s, 0.25);
  RunSpec b = s;
  int n = g.in(1, 4);
  static const int errs[] = {EIO, ENOSPC, EACCES, EROFS, EDQUOT, EINTR, EAGAIN, EBADF, EMFILE, ENFILE};
  c.kind = "";
  for (int i = 0; i < n; ++i) {
    std::string file = g.p(0.5) ? "nlcg.json" : "nlcg.out";
    long nth = g.p(0.3) ? 0 : g.below(25), cnt = g.p(0.3) ? 1000000 : g.in(1, 4);
    int er = errs[g.below(10)];
    std::string k;
    switch (g.below(10)) {
      case 0: k = "io_open"; break;
      case 1: case 2: k = "io_write"; if (er == EINTR || er == EAGAIN) { if (cnt > 5) er = EIO; } break;
      case 3: k = "io_torn"; if (er == EINTR || er == EAGAIN) { if (cnt > 5) er = EIO; } break;
      case 4: k = "io_short"; cnt = std::min(cnt, 40l); break;
      case 5: k = "io_close"; break;
      case 6: k = "io_remove"; file = "nlcg.json"; nth = 0; cnt = 1000000; break;
      case 7: k = "clock_jump"; break;
      case 8: k = "clock_freeze"; break;
      case 9: k = "stdout_fail"; break;
    }
    if (k == "clock_jump") { static const double j[] = {-1e9, -3600, -0.5, 3600, 1e8, 1e9}; add_fault(s, k, "", g.p(0.5) ? -1 : g.below(s.nranks), g.below(60), g.in(1, 3), j[g.below(6)]); }
    else if (k == "clock_freeze") add_fault(s, k, "", g.p(0.5) ? -1 : g.below(s.nranks), g.below(60), g.p(0.5) ? 1000000 : 10, 0);
    else if (k == "stdout_fail") add_fault(s, k, "", -1, nth, cnt, 0);
    else add_fault(s, k, file, g.p(0.7) ? -1 : g.below(s.nranks), nth, cnt, er);
    c.kind += (i ? "+" : "") + k;
  }
  if (n > 1) c.kind = "several";
  if (more) c.kind += ", then another call";
  c.runs = {s, b};
  return c;
}
static void judge_C10(const Case& c, Stats& st, Verdict& v)
{
  Outcome b = run1(c.runs[1], with_facts(c.runs[1], nullptr), st, v);
  if (!in_order(b, v, 1)) return;
  bool exc = false;
  for (auto& x : b.calls) exc = exc || x.res[0].status == 1;   // where double precision gives out, both runs throw
  Outcome o = run1(c.runs[0], with_facts(c.runs[0], nullptr), st, v);
  v.nontrivial = o.ok && !o.fired.empty();
  if (!in_order(o, v, 0, exc)) return;
  if (o.digest() != b.digest()) { fail(v, 0, "trouble with files or clocks changes the calculation: " + o.digest() + " / " + b.digest()); return; }
  for (size_t i = 1; i < o.calls.size(); ++i)   // the trouble was over when this call began
    if (o.calls[i].journal != b.calls[i].journal) { fail(v, 0, "trouble with files outlasts its call: the journal of the next call differs"); return; }
}

// ================================================================ C11
static Case gen_C11(Rng& g, Case c)
{
  double u = g.u();
  RunSpec s = short_run(g, g.p(0.3) ? 30 : 8, g.p(0.6));
  s.calls[0].p.T = std::max(s.calls[0].p.T, 1500.0);
  if (u < 0.12) {
    c.kind = "invalid";
    int w = g.below(4);
    if (g.p(0.3)) s.calls[0].a.maxiter = g.in(0, 1);
    if (w == 3) s.calls[0].a.restart = 0;
    else if (w == 0) { /* -1, -2: NaN, -Inf */ static const double bad[] = {0, 0, -300, -1e5, -1e-3, -1, -1, -2}; s.calls[0].p.T = bad[g.below(8)]; }
    else if (w == 1) { static const int bads[] = {5, 6, 7, -1, 100, -5}; s.calls[0].p.smearing = bads[g.below(6)]; s.calls[0].a.entry = g.below(2); }
    else s.calls[0].a.entry = g.in(2, 7);
    c.runs = {s};
    return c;
  }
  if (u < 0.16) { c.kind = "entry1"; s.calls[0].a.entry = 1; c.runs = {s, s}; c.runs[1].calls[0].a.entry = 0; return c; }
  if (g.p(0.3)) add_fault(s, "energy_block", "", -1, g.below(5), 1, g.logrange(1e-3, 1));
  RunSpec b = s;
  Outcome d = exec_run(b, nullptr, false, u >= 0.62);
  int r = g.below(s.nranks);
  auto early = [&](long n) { return n <= 1 ? 0l : (g.p(0.3) ? (long)g.below((int)std::min(n, 20l)) : (long)(g.u() * n)); };
  if (u < 0.32) {
    c.kind = "mpi";
    long n = d.ok && (int)d.commcalls.size() > r ? d.commcalls[r] : 10;
    add_fault(s, "mpi_error", "", r, early(n), 1, 0);
    c.runs = {s};
    return c;
  }
  if (u < 0.37) {
    c.kind = "device";
    static const char* cbs[] = {"get_C", "get_hphi", "get_fn", "get_ek"};
    std::string cb = cbs[g.below(4)];
    long n = d.ok && !d.calls.empty() && d.calls[0].cb.count(cb) ? d.calls[0].cb[cb] : 3;
    add_fault(s, "device_buffer", cb, r, early(n), 1, g.p(0.5) ? 0 : g.in(1, 6));   // all entries or one
    c.runs = {s};
    return c;
  }
  if (u < 0.5) {
    c.kind = "host";
    std::vector<std::string> cbs = sym_cbs;
    for (const char* x : {"precond", "overlap", "precond", "overlap"}) cbs.push_back(x);
    std::string cb = g.pick(cbs);
    long n = d.ok && !d.calls.empty() && d.calls[0].cb.count(cb) ? d.calls[0].cb[cb] : 3;
    if (s.nranks > 1 && g.p(0.5)) r = g.below(s.nranks);
    add_fault(s, "host_throw", cb, r, early(n), 1, g.below(5));
    c.runs = {s};
    return c;
  }
  if (u < 0.62) {
    c.kind = "nonfinite";
    long n = d.ok && !d.calls.empty() ? (long)d.calls[0].nevals : 5;
    add_fault(s, "energy_nan", "", -1, early(n), g.p(0.7) ? 1 : g.in(2, 5), g.in(-1, 1));
    c.runs = {s, b};
    return c;
  }
  if (u < 0.7) {
    c.kind = "data";   // data of the host that are not numbers
    static const char* what[] = {"H", "H", "ek", "overlap", "precond"};
    std::string t = what[g.below(5)];
    long n = 3;
    if (d.ok && !d.calls.empty()) { if (t == "H") n = d.calls[0].nevals; else if (t == "ek") n = 1; else if (d.calls[0].cb.count(t)) n = d.calls[0].cb[t]; }
    add_fault(s, "nan_data", t, r, t == "ek" ? 0 : early(n), 1, g.in(-1, 1));
    c.runs = {s, b};
    return c;
  }
  if (u < 0.86) {
    c.kind = "lapack";
    std::vector<std::string> names;
    if (d.ok) for (auto& kv : d.lapack) names.push_back(kv.first);
    if (names.empty()) names.push_back("LAPACKE_zheevd");
    std::string nm = g.pick(names);
    long n = d.ok && d.lapack.count(nm) && (int)d.lapack[nm].size() > r ? d.lapack[nm][r] : 3;
    add_fault(s, "lapack", nm, r, early(n), g.p(0.8) ? 1 : 3, g.p(0.5) ? 1 : (g.p(0.5) ? -1010 : -4));
  } else {
    c.kind = "alloc";
    long n = d.ok && (int)d.allocs.size() > r ? d.allocs[r] : 100;
    add_fault(s, "alloc", "", r, early(n), g.p(0.7) ? 1 : g.in(2, 1000), 0);
  }
  c.runs = {s, b};
  return c;
}
static bool fired_kind(const Outcome& o, const char* k) { for (auto& kv : o.fired) if (kv.first.rfind(k, 0) == 0) return true; return false; }
static void judge_C11(const Case& c, Stats& st, Verdict& v)
{
  auto& s = c.runs[0];
  if (c.kind == "invalid") {
    Outcome o = run1(s, nullptr, st, v);
    v.nontrivial = true;
    if (!o.ok) { fail(v, 0, "process died: " + o.death); return; }
    if (o.end != "done") { fail(v, 0, o.end + ": " + o.end_detail); return; }
    for (auto& r : o.calls[0].res) if (r.status != 1) { fail(v, 0, "invalid call accepted: " + res_str(r)); return; }
    if (o.calls[0].nevals) fail(v, 0, fmt("invalid call refused late: %zu energies were evaluated", o.calls[0].nevals));
    return;
  }
  Outcome b;
  if (c.runs.size() > 1) { b = run1(c.runs[1], with_facts(c.runs[1], nullptr), st, v); if (!in_order(b, v, 1)) return; }
  if (c.kind == "entry1") {
    Outcome o = run1(s, with_facts(s, nullptr), st, v);
    v.nontrivial = true;
    if (!in_order(o, v, 0)) return;
    if (o.digest() != b.digest()) fail(v, 0, "entry points differ: the two CPU entry points give different results");
    return;
  }
  if (c.kind == "mpi") {
    Outcome o = run1(s, nullptr, st, v);
    if (!o.ok) { if (o.death.find("no progress") != std::string::npos || o.death.find("exit code") != std::string::npos) fail(v, 0, "process died: " + o.death); v.nontrivial = true; return; }
    if (!fired_kind(o, "mpi_error")) return;
    v.nontrivial = true;
    if (o.end != "aborted") {
      std::string d = o.end;
      if (o.end == "done") for (auto& r : o.calls[0].res) d += "; " + res_str(r);
      fail(v, 0, "MPI error is not fatal: an MPI call reported an error and the job goes on (" + d + " " + o.end_detail + ")");
    }
    return;
  }
  if (c.kind == "host") {
    const Fault* f = nullptr;
    for (auto& x : s.faults) if (x.kind == "host_throw") f = &x;
    Outcome o = run1(s, nullptr, st, v);
    if (!o.ok) { fail(v, 0, "process died: " + o.death); return; }
    if (!f || !fired_kind(o, "host_throw")) return;
    v.nontrivial = true;
    static const char* types[] = {"HostThrow", "std::runtime_error", "HostThrowPlain", "std::bad_alloc", "std::logic_error"};
    auto& r = o.calls[0].res[f->rank];
    int k = (int)f->value;
    if (o.end != "done" && o.end != "deadlock" && o.end != "mismatch") { fail(v, 0, "host exception: the run ended with " + o.end + " " + o.end_detail); return; }
    if (r.status != 1) { fail(v, 0, "host exception swallowed: " + f->target + " threw " + types[k] + ", the call: " + res_str(r)); return; }
    if (r.etype != types[k] || ((k == 0 || k == 2) && r.eid != 4242) || ((k == 1 || k == 4) && r.what.rfind("simulated host failure", 0) != 0))
      fail(v, 0, "host exception changed: " + f->target + " threw " + types[k] + ", the caller got " + res_str(r));
    return;
  }
  if (c.kind == "device") {
    const Fault* f = nullptr;
    for (auto& x : s.faults) if (x.kind == "device_buffer") f = &x;
    Outcome o = run1(s, nullptr, st, v);
    if (!o.ok) { fail(v, 0, "process died: " + o.death); return; }
    if (!f || !o.probes.count("device memory handed out")) return;
    v.nontrivial = true;
    auto& r = o.calls[0].res[f->rank];
    if (o.end != "done" && o.end != "deadlock" && o.end != "mismatch") { fail(v, 0, "device memory: the run ended with " + o.end + " " + o.end_detail); return; }
    if (r.status != 1) fail(v, 0, "device memory accepted: " + f->target + " gave a buffer in device memory, which this build cannot use, the call: " + res_str(r));
    return;
  }
  if (c.kind == "nonfinite") {
    Outcome o = run1(s, [](Outcome& o) {
      for (auto& h : g_hist) for (auto& m : h.marks) for (size_t q : m) if (q >= 2 && q <= h.ev.size() && !std::isfinite(h.ev[q - 1].E_rep)) { fail(o, "non-finite energy accepted: it is the start of an iteration"); return; }
    }, st, v);
    if (!o.ok) { if (o.death.find("no progress") != std::string::npos) fail(v, 0, "process died: " + o.death); return; }
    v.nontrivial = fired_kind(o, "energy_nan");
    if (o.end != "done" && o.end != "aborted") { fail(v, 0, o.end + ": " + o.end_detail); return; }
    for (auto& x : o.bad) fail(v, 0, x);
    if (o.end != "done") return;
    for (size_t r = 0; r < o.calls[0].res.size(); ++r) {
      auto& q = o.calls[0].res[r];
      if (q.status == 0 && (!std::isfinite(q.F) || !std::isfinite(q.S) || !std::isfinite(q.tolerance))) fail(v, 0, "non-finite energy accepted: " + res_str(q));
    }
    for (double F : o.calls[0].F) if (!std::isfinite(F)) { fail(v, 0, "non-finite energy accepted: the journal reports a free energy that is not finite"); break; }
    auto &ra = o.calls[0].res[0], &rb = b.calls[0].res[0];
    // a call that returns as converged has to be right
    if (v.nontrivial && ra.status == 0 && ra.converged && rb.status == 0 && rb.converged && std::abs(ra.F - rb.F) > 1e-4 + 1e3 * s.calls[0].a.tol) fail(v, 0, "non-finite energy changes the result: " + res_str(ra) + " / " + res_str(rb));
    return;
  }
  // lapack, alloc, data
  Outcome o = run1(s, nullptr, st, v);
  const char* kd = c.kind == "lapack" ? "lapack" : c.kind == "data" ? "nan_data" : "alloc";
  int fr = 0;
  for (auto& x : s.faults) if (x.kind == kd) fr = x.rank;
  if (!o.ok) {
    v.nontrivial = true;
    if (o.death.find("no progress") != std::string::npos || o.death.find("exit code 98") != std::string::npos) fail(v, 0, "process died: " + o.death);
    return;
  }
  if (!fired_kind(o, kd)) return;
  v.nontrivial = true;
  if (o.end == "aborted" || o.end == "deadlock" || o.end == "mismatch") {
    // the failing rank left with an exception, the others wait for it (the job is lost, not wrong)
    if (o.end != "aborted" && o.calls[0].res[fr].status != 1) fail(v, 0, "failure underneath: " + o.end + " " + o.end_detail);
    return;
  }
  if (o.end != "done") { fail(v, 0, o.end + ": " + o.end_detail); return; }
  // ranks that return have to return what they would have returned; if all do, everything is the same
  // (a rank may fail after its last meeting with the others)
  bool anyexc = false, wrong = false;
  for (size_t r = 0; r < o.calls[0].res.size(); ++r) {
    auto &x = o.calls[0].res[r], &y = b.calls[0].res[r];
    if (x.status == 1) { anyexc = true; continue; }
    if (x.status != y.status || x.F != y.F || x.S != y.S || x.tolerance != y.tolerance || x.iter != y.iter || x.converged != y.converged) wrong = true;
  }
  if (!anyexc && o.digest() != b.digest()) wrong = true;
  // a call that stops because its residual is not a number says so itself
  if (wrong && c.kind == "data") {
    // and one that discarded the spoilt direction (its slope is +Inf, uphill) and
    // started again from the steepest descent may still end in the minimum it was
    // going to, or say that it did not get there within its iterations
    bool says = true, same = true;
    const auto& y = b.calls[0].res[0];
    for (auto& x : o.calls[0].res) {
      says = says && x.status == 0 && !x.converged && !std::isfinite(x.tolerance);
      double lim = 1e-4 + 1e3 * s.calls[0].a.tol;
      same = same && x.status == 0 && y.status == 0 && std::isfinite(x.F) && std::isfinite(x.tolerance) && (!x.converged || (x.F <= y.F + lim && (!y.converged || x.F >= y.F - lim)));
    }
    if (says || same) wrong = false;
  }
  if (wrong) {
    std::string d;
    for (auto& r : o.calls[0].res) d += res_str(r) + "; ";
    fail(v, 0, "failure underneath became a result: " + d + "without the failure: " + res_str(b.calls[0].res[0]));
  }
}

// ================================================================ C12
static Case gen_C12(Rng& g, Case c)
{
  GenOpt o;
  bool leak = g.p(0.3);
  RunSpec t = rnd_run(g, o, g.p(0.6));
  t.calls[0].a.maxiter = g.in(1, g.p(0.3) ? 40 : 14);
  if (g.p(0.12)) t.calls[0].a.maxiter = 0;
  if (leak) {
    c.kind = "leak";
    t.calls[0].a.maxiter = g.in(1, 12);
    t.track_mem = 1;
    int n = g.p(0.85) ? 5 : g.in(6, 14);
    if (n > 5) t.calls[0].a.maxiter = g.in(0, 4);
    Call one = t.calls[0];
    one.l.reloc = 0;
    t.calls.assign(n, one);
    double u = g.u();
    if (u < 0.25) { add_fault(t, "host_throw", g.pick(sym_cbs), -1, g.below(5), 1, g.below(5), -1); c.kind = "leak on error"; }
    else if (u < 0.45) { add_fault(t, "energy_block", "", -1, g.below(4), g.in(1, 2), g.logrange(1e-2, 1), -1); }
    c.runs = {t};
    return c;
  }
  c.kind = "history";
  RunSpec h = t;
  h.calls.clear();
  int n = g.p(0.9) ? g.in(1, 3) : g.in(4, 10);
  std::string what;
  for (int i = 0; i < n; ++i) {
    Call x;
    double u = g.u();
    if (u < 0.25) x = t.calls[0];
    else {
      GenOpt oo;
      do { x = rnd_call(g, oo); } while (nkeys(x.p) < t.nranks && !g.p(0.15));
      x.l = gen_layout(g, nkeys(x.p), t.nranks, g.p(0.6));
    }
    x.a.maxiter = g.in(n > 3 ? 0 : 1, n > 3 ? 4 : 25);
    u = g.u();
    if (u < 0.2) { add_fault(h, "host_throw", g.pick(sym_cbs), -1, g.below(10), 1, g.below(5), i); what = "error"; }
    else if (u < 0.27) { x.p.T = 0; }
    else if (u < 0.34) { x.a.entry = g.in(1, 7); }
    else if (u < 0.4) { x.p.ne = x.p.occ * x.p.nb * x.p.nspin + 3; }
    else if (u < 0.5) { add_fault(h, "energy_block", "", -1, g.below(4), g.in(1, 3), lift(g, 1e-2, 1), i); }
    else if (u < 0.6) { add_fault(h, g.p(0.5) ? "io_open" : "io_write", g.p(0.5) ? "nlcg.json" : "nlcg.out", -1, g.below(6), 1000, EIO, i); }
    else if (u < 0.65) { add_fault(h, "energy_nan", "", -1, g.in(1, 8), 1, 0, i); }
    if (g.p(0.2)) x.a.tol = g.logrange(1e-4, 1e-1);
    if (g.p(0.3)) { x.p.landscape = g.in(1, 7); x.p.lamp = g.logrange(1e-2, 2); }
    h.calls.push_back(x);
  }
  int k = (int)h.calls.size();
  h.calls.push_back(t.calls[0]);
  if (g.p(0.3)) { add_fault(h, "energy_block", "", -1, g.below(6), 1, 0.1, k); Fault f = h.faults.back(); f.call = 0; t.faults.push_back(f); }
  h.perturb = g.in(1, 255);
  t.perturb = g.in(1, 255);
  if (g.p(0.5)) gen_sched(g, h);
  c.runs = {h, t};
  return c;
}
// nlcg.out without numbers, blanks and timings (the number format is state of the stream)
static std::string bare_log(const std::string& l)
{
  std::string r;
  std::istringstream is(l);
  std::string line;
  while (std::getline(is, line)) {
    if (line.find("took:") != std::string::npos) continue;
    for (size_t i = 0; i < line.size();) {
      char ch = line[i];
      if (ch == ' ' || ch == '\t') { ++i; continue; }
      size_t j = i + ((ch == '-' || ch == '+') && i + 1 < line.size() ? 1 : 0);
      if (isdigit((unsigned char)line[j])) {
        char* e; strtod(line.c_str() + i, &e);
        i = e - line.c_str(); r += '#';
      } else { r += ch; ++i; }
    }
    r += '\n';
  }
  return r;
}
static void judge_C12(const Case& c, Stats& st, Verdict& v)
{
  auto& s = c.runs[0];
  if (c.kind.rfind("leak", 0) == 0) {
    Outcome o = run1(s, with_facts(s, nullptr), st, v);
    if (!in_order(o, v, 0, c.kind == "leak on error")) return;
    v.nontrivial = true;
    auto &a = o.calls[1], &b = o.calls.back();
    if (b.live_types != a.live_types) fail(v, 0, fmt("accumulates MPI datatypes: %ld after call 2, %ld after call %zu", a.live_types, b.live_types, o.calls.size()));
    if (b.live_comms != a.live_comms) fail(v, 0, fmt("accumulates communicators: %ld after call 2, %ld after call %zu", a.live_comms, b.live_comms, o.calls.size()));
    if (b.nfds != a.nfds) fail(v, 0, fmt("accumulates open files: %ld after call 2, %ld after call %zu", a.nfds, b.nfds, o.calls.size()));
    if (b.heap > a.heap + 256) fail(v, 0, fmt("accumulates memory: %zu bytes after call 2, %zu after call %zu", a.heap, b.heap, o.calls.size()));
    for (size_t i = 1; i < o.calls.size(); ++i)
      if (o.calls[i].hash != o.calls[0].hash || !same_result(o.calls[i].res[0], o.calls[0].res[0])) { fail(v, 0, fmt("call depends on earlier calls: repetition %zu differs from the first call", i)); break; }
    return;
  }
  Outcome b = run1(c.runs[1], with_facts(c.runs[1], nullptr), st, v);
  if (!in_order(b, v, 1)) return;
  Outcome o = run1(s, nullptr, st, v);
  if (!o.ok) { fail(v, 0, "process died: " + o.death); return; }
  if (o.end != "done") { fail(v, 0, o.end + ": " + o.end_detail); return; }
  v.nontrivial = true;
  auto &x = o.calls.back(), &y = b.calls.back();
  for (size_t r = 0; r < y.res.size(); ++r)
    if (!same_result(x.res[r], y.res[r])) { fail(v, 0, "call depends on earlier calls: " + res_str(x.res[r]) + "; in a fresh process: " + res_str(y.res[r])); return; }
  if (x.hash != y.hash || x.nevals != y.nevals) fail(v, 0, "call depends on earlier calls: the states handed to the host differ from a fresh process");
  else if (x.journal != y.journal) fail(v, 0, "call depends on earlier calls: the journal differs from a fresh process");
  else {
    std::string a = bare_log(x.log), b2 = bare_log(y.log);
    if (x.have_log != y.have_log || a != b2) {
      size_t i = 0; while (i < a.size() && i < b2.size() && a[i] == b2[i]) ++i;
      std::string t = a.substr(i > 20 ? i - 20 : 0, 60); for (char& ch : t) if (!isprint((unsigned char)ch)) ch = '.';
      fail(v, 0, "call depends on earlier calls: nlcg.out differs from a fresh process near '" + t + "'");
    }
  }
}

// ================================================================ C13
static Case gen_C13(Rng& g, Case c)
{
  GenOpt o;
  RunSpec s = rnd_run(g, o);
  auto& l = s.calls[0].l;
  l.order = g.p(0.75) ? 1 + g.below(1000000) : 0;
  l.stride = g.p(0.8) ? g.in(1, 4) : 0;
  l.reloc = g.p(0.75) ? g.in(1, 2) : 0;
  c.kind = disturb(g, s);
  s.calls[0].a.maxiter = g.in(3, 40);
  if (g.p(0.15)) { add_fault(s, "host_throw", g.pick(sym_cbs), -1, g.below(20), 1, g.below(5)); c.kind = "error"; }
  if (g.p(0.15)) { Call x = s.calls[0]; x.l = gen_layout(g, nkeys(x.p), s.nranks); s.calls.push_back(x); c.kind += " twice"; }
  c.runs = {s};
  return c;
}
static void judge_C13(const Case& c, Stats& st, Verdict& v)
{
  auto& s = c.runs[0];
  Outcome o = run1(s, with_facts(s, [](Outcome& o, Facts& f) {
    for (auto& x : f.h.complaints) fail(o, "host memory or interface: " + x);
    if (!f.m.diffs.empty() && o.bad.empty()) fail(o, "elements misread: " + f.m.diffs[0]);
  }), st, v);
  in_order(o, v, 0, o.ok && fired_kind(o, "host_throw"));
  v.nontrivial = o.ok && o.calls[0].nevals > 2;
}

// ================================================================ C14
static Case gen_C14(Rng& g, Case c)
{
  GenOpt o;
  RunSpec s = rnd_run(g, o, g.p(0.7));
  c.kind = disturb(g, s);
  auto& a = s.calls[0].a;
  if (g.p(0.3)) a.kappa = g.logrange(0.01, 3);
  if (g.p(0.15)) a.restart = g.in(1, 60);
  if (g.p(0.15)) a.maxiter = g.in(1, 10);
  if (g.p(0.1)) s.calls[0].p.init = 2;
  if (g.p(0.2)) for (int i = 0, n = g.in(1, 3), at = g.below(6); i < n; ++i, at += g.in(1, 5)) add_fault(s, "energy_block", g.p(0.5) ? "" : std::to_string(g.in(1, 6)), -1, at, 1, g.logrange(1e-4, 1));
  if (follow(g, s)) c.kind += ", then another call";
  c.runs = {s};
  return c;
}
static void judge_C14(const Case& c, Stats& st, Verdict& v)
{
  auto& s = c.runs[0];
  Outcome o = run1(s, with_facts(s, [](Outcome& o, Facts& f) {
    ends_as_model(o, f, -1);
    o.extra["cov"] = (long)f.m.ev.size();
  }), st, v);
  in_order(o, v, 0);
  if (o.ok) st.notes["evaluations matched with the model"] += o.extra.value("cov", 0l);
  v.nontrivial = o.ok && o.extra.value("cov", 0l) > 4;
}

// ================================================================ table
struct Prop { const char* id; Case (*gen)(Rng&, Case); void (*jud)(const Case&, Stats&, Verdict&); long quick; const char* rule; };
static const Prop props[] = {
  {"C01", gen_C01, judge_C01, 4000, "random problem run on one rank and on 1-2 other distributions (or twice on the same distribution under two seeded schedules); non-trivial: at least one iteration compared, and for schedule pairs the two interleavings really differ"},
  {"C02", gen_C02, judge_C02, 8000, "random problem on 2-8 ranks under a seeded schedule, with disturbed energies or a host error on all ranks; non-trivial: more than two energy evaluations"},
  {"C03", gen_C03, judge_C03, 8000, "random problem with a rough energy landscape or blocked trial points; non-trivial: some line search had to backtrack or failed"},
  {"C04", gen_C04, judge_C04, 5000, "random problem with noisy energies (wild) or with line searches made to fail at chosen iterations; non-trivial: a line search really failed, or (wild) more than three evaluations"},
  {"C05", gen_C05, judge_C05, 8000, "random problem, smearing, temperature, distribution and disturbance; non-trivial: more than three evaluations, or more electrons than states"},
  {"C06", gen_C06, judge_C06, 7000, "random problem, overlap operator, step lengths and disturbance, a third of them long runs; non-trivial: more than three evaluations"},
  {"C07", gen_C07, judge_C07, 8000, "random problem, smearing, distribution and disturbance; non-trivial: more than one iteration"},
  {"C08", gen_C08, judge_C08, 5000, "random problem, smearing and distribution, with blocked trial points, degenerate start or a second run with a tighter tolerance; non-trivial: more than one iteration"},
  {"C09", gen_C09, judge_C09, 6000, "random problem with stale files, a crash at a random step, a crash inside a random file operation (torn write) or interrupted and short writes; non-trivial: more than one iteration, or the crash came after an iteration had begun"},
  {"C10", gen_C10, judge_C10, 6000, "random problem with 1-4 file, stdout or clock faults, compared with the run without; non-trivial: a fault really fired"},
  {"C11", gen_C11, judge_C11, 6000, "random problem with one failure of MPI, host callback, LAPACK, allocator, energy value or call parameters at a random occurrence; non-trivial: it really fired"},
  {"C12", gen_C12, judge_C12, 5000, "random sequence of calls followed by a target call, compared with the target call in a fresh process, or one call repeated with resource accounting; every case that gets that far is non-trivial"},
  {"C13", gen_C13, judge_C13, 8000, "random problem with padded, transposed and relocated host buffers, shuffled container orders and canaries; non-trivial: more than two evaluations"},
  {"C14", gen_C14, judge_C14, 8000, "random problem, parameters and disturbance, every evaluation compared with the reference model; non-trivial: more than four evaluations compared"},
};
static const Prop* find(const std::string& p) { for (auto& x : props) if (p == x.id) return &x; return nullptr; }
bool known_prop(const std::string& p) { return find(p); }
long quick_cases(const std::string& p) { return find(p)->quick; }
const char* nontrivial_rule(const std::string& p) { return find(p)->rule; }
// keep the longest possible run of a case within about 20 s of processor time, so that the limit on it only meets
// calls that do not make progress: first fewer backtracking steps per line search, then fewer iterations
static void bound_cost(Case& c)
{
  auto worst = [&] {
    double w = 0;
    for (auto& r : c.runs)
      for (auto& k : r.calls) {
        double nkp = k.p.nk * k.p.nspin, per = 2e-4 * r.nranks + nkp * (1.5e-4 + 2e-6 * k.p.nb * k.p.nb);
        double bt = k.a.tau > 0 && k.a.tau < 1 ? 17 / -std::log(k.a.tau) : 0;
        w = std::max(w, k.a.maxiter * (6 + bt) * per);
      }
    return w;
  };
  const double lim = 20;
  for (double t : {0.6, 0.45, 0.3}) {
    if (worst() <= lim) return;
    for (auto& r : c.runs) for (auto& k : r.calls) if (k.a.tau > t && k.a.tau < 1) k.a.tau = t;
  }
  double w = worst();
  if (w > lim) for (auto& r : c.runs) for (auto& k : r.calls) if (k.a.maxiter > 40) k.a.maxiter = std::max(40, (int)(k.a.maxiter * lim / w));
}
Case gen_case(const std::string& prop, uint64_t seed, bool)
{
  Case c;
  c.prop = prop; c.seed = seed;
  Rng g(seed);
  c = find(prop)->gen(g, c);
  bound_cost(c);
  return c;
}
Verdict judge(const Case& c, Stats& st)
{
  Verdict v;
  v.sig = hstr(c.prop);
  st.cases++;
  st.kinds[c.kind]++;
  find(c.prop)->jud(c, st, v);
  if (v.nontrivial) { st.nontrivial++; st.nt.insert(v.sig); }
  return v;
}
