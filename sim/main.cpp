// nlcgsim check --lib DIR --prop ID --tier quick|thorough --seed N --out VERIFDIR [--cases N] [--secs T] [--all] [--workers W]
// nlcgsim replay --lib DIR FILE
#include "checks.hpp"
#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

static double now()
{
  struct timespec t;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}
static void make_scratch()
{
  static char t1[] = "/dev/shm/nlcgsimXXXXXX", t2[] = "/tmp/nlcgsimXXXXXX";
  char* p = mkdtemp(t1);
  if (!p) p = mkdtemp(t2);
  if (!p) { perror("mkdtemp"); _exit(3); }
  g_scratch = p;
}
static void rm_scratch()
{
  if (g_scratch.empty()) return;
  DIR* d = opendir(g_scratch.c_str());
  if (d) {
    while (dirent* e = readdir(d)) {
      std::string n = e->d_name;
      if (n == "." || n == "..") continue;
      std::string p = g_scratch + "/" + n;
      DIR* dd = opendir(p.c_str());
      if (dd) {
        while (dirent* f = readdir(dd)) { std::string m = f->d_name; if (m != "." && m != "..") unlinkat(AT_FDCWD, (p + "/" + m).c_str(), 0); }
        closedir(dd);
        unlinkat(AT_FDCWD, p.c_str(), AT_REMOVEDIR);
      } else unlinkat(AT_FDCWD, p.c_str(), 0);
    }
    closedir(d);
  }
  unlinkat(AT_FDCWD, g_scratch.c_str(), AT_REMOVEDIR);
}
static void put_file(const std::string& path, const std::string& s)
{
  FILE* f = fopen(path.c_str(), "w");
  if (!f) { fprintf(stderr, "cannot write %s\n", path.c_str()); return; }
  fwrite(s.data(), 1, s.size(), f);
  fclose(f);
}

// ---------------------------------------------------------------- minimisation
static std::string find_class(const Case& c)
{
  Stats st;
  Verdict v = judge(c, st);
  return v.cls();
}
static void fix_layout(RunSpec& s)
{
  s.nranks = std::max(1, s.nranks);
  for (auto& c : s.calls) {
    c.l.assign.resize(nkeys(c.p), 0);
    for (auto& a : c.l.assign) a %= s.nranks;
  }
  for (auto& f : s.faults) if (f.rank >= s.nranks) f.rank = s.nranks - 1;
}
typedef std::function<bool(Case&)> Op;   // false: nothing to do
static long g_min_tries = 0, g_min_hits = 0;
static Case minimise(Case c, const std::string& cls, double budget)
{
  double t0 = now();
  auto left = [&]() { return now() - t0 < budget; };
  auto attempt = [&](const Op& op) {
    if (!left()) return false;
    Case d = c;
    if (!op(d)) return false;
    for (auto& r : d.runs) fix_layout(r);
    if (json(d) == json(c)) return false;
    g_min_tries++;
    if (find_class(d) != cls) return false;
    c = d;
    g_min_hits++;
    return true;
  };
  auto eachc = [](Case& d, const std::function<bool(Call&)>& f) { bool ch = false; for (auto& r : d.runs) for (auto& x : r.calls) ch = f(x) || ch; return ch; };
  bool progress = true;
  for (int round = 0; round < 4 && progress && left(); ++round) {
    progress = false;
    auto tr = [&](const Op& op) { if (attempt(op)) progress = true; };
    // drop faults
    for (size_t r = 0; r < c.runs.size(); ++r)
      for (size_t i = 0; i < c.runs[r].faults.size();) {
        size_t n = c.runs[r].faults.size();
        if (attempt([&](Case& d) { d.runs[r].faults.erase(d.runs[r].faults.begin() + i); return true; })) { progress = true; if (c.runs[r].faults.size() >= n) ++i; } else ++i;
        if (!left()) break;
      }
    // drop earlier calls (only the first run of a history case has several)
    if (c.kind == "history")
      while (left() && c.runs[0].calls.size() > 2 && attempt([&](Case& d) {
        d.runs[0].calls.erase(d.runs[0].calls.begin());
        auto& f = d.runs[0].faults;
        for (size_t i = 0; i < f.size();) { if (f[i].call == 0) f.erase(f.begin() + i); else { f[i].call--; ++i; } }
        return true;
      })) progress = true;
    else
      while (left() && attempt([&](Case& d) {
        bool ch = false;
        for (auto& r : d.runs) if (r.calls.size() > 1) {
          r.calls.pop_back();
          for (size_t i = 0; i < r.faults.size();) { if (r.faults[i].call >= (int)r.calls.size()) r.faults.erase(r.faults.begin() + i); else ++i; }
          ch = true;
        }
        return ch && d.kind.rfind("leak", 0) != 0;
      })) progress = true;
    tr([&](Case& d) { bool ch = false; for (auto& r : d.runs) if (!r.files.empty()) { r.files.clear(); ch = true; } return ch; });
    // fewer ranks
    for (int n = 1; n < 8; ++n)
      if (attempt([&](Case& d) { bool ch = false; for (auto& r : d.runs) if (r.nranks > n) { r.nranks = n; ch = true; } return ch; })) { progress = true; break; }
    // fewer k-points, bands
    tr([&](Case& d) { return eachc(d, [](Call& x) { if (x.p.nspin == 1) return false; x.p.nspin = 1; return true; }); });
    for (int q = 0; q < 6; ++q) tr([&](Case& d) { return eachc(d, [](Call& x) { if (x.p.nk <= 1) return false; x.p.nk--; return true; }); });
    for (int q = 0; q < 6; ++q) tr([&](Case& d) { return eachc(d, [](Call& x) { if (x.p.nb <= 2 || x.p.ne >= x.p.occ * (x.p.nb - 1) * x.p.nspin) return false; x.p.nb--; return true; }); });
    tr([&](Case& d) { return eachc(d, [](Call& x) { if (x.p.nmax == x.p.nb + 1) return false; x.p.nmin = x.p.nmax = x.p.nb + 1; return true; }); });
    tr([&](Case& d) { return eachc(d, [](Call& x) { if (!x.p.labels) return false; x.p.labels = 0; return true; }); });
    tr([&](Case& d) { return eachc(d, [](Call& x) { if (!x.p.nbvar) return false; x.p.nbvar = false; return true; }); });
    tr([&](Case& d) { return eachc(d, [](Call& x) { if (!x.p.landscape) return false; x.p.landscape = 0; return true; }); });
    tr([&](Case& d) { return eachc(d, [](Call& x) { if (x.p.coupling == 0) return false; x.p.coupling = 0; return true; }); });
    tr([&](Case& d) { return eachc(d, [](Call& x) { if (x.p.ng <= 1) return false; x.p.ng = 1; return true; }); });
    tr([&](Case& d) { return eachc(d, [](Call& x) { if (x.p.overlap == 0) return false; x.p.overlap = 0; return true; }); });
    tr([&](Case& d) { return eachc(d, [](Call& x) { if (x.p.shift == 0) return false; x.p.shift = 0; return true; }); });
    tr([&](Case& d) { return eachc(d, [](Call& x) { if (!x.l.reloc) return false; x.l.reloc = 0; return true; }); });
    tr([&](Case& d) { return eachc(d, [](Call& x) { if (!x.l.stride) return false; x.l.stride = 0; return true; }); });
    tr([&](Case& d) { return eachc(d, [](Call& x) { if (!x.l.order) return false; x.l.order = 0; return true; }); });
    tr([&](Case& d) { return eachc(d, [](Call& x) { if (!x.l.comm) return false; x.l.comm = 0; return true; }); });
    tr([&](Case& d) { bool ch = false; for (auto& r : d.runs) { ch = ch || r.skip_newton || r.reduce_perm; r.skip_newton = 0; r.reduce_perm = 0; } return ch; });
    for (int q = 0; q < 8; ++q) tr([&](Case& d) { return eachc(d, [](Call& x) { if (x.a.maxiter <= 1) return false; x.a.maxiter = x.a.maxiter > 4 ? x.a.maxiter * 2 / 3 : x.a.maxiter - 1; return true; }); });
    for (const char* p : {"first", "rr"})
      if (attempt([&](Case& d) { bool ch = false; for (size_t r = 0; r < d.runs.size(); ++r) if (d.runs[r].policy != "first" && d.runs[r].policy != p) { d.runs[r].policy = p; d.runs[r].decisions.clear(); ch = true; } return ch; })) { progress = true; break; }
  }
  // the schedule: explicit decisions, as short as possible
  for (size_t r = 0; r < c.runs.size() && left(); ++r) {
    if (c.runs[r].nranks < 2 || c.runs[r].policy == "first" || c.runs[r].policy == "explicit") continue;
    Outcome o = exec_run(c.runs[r], nullptr, true);
    if (!o.ok || o.decisions.empty()) continue;
    std::vector<int> dec = o.decisions;
    auto with = [&](size_t n) { return [&, n](Case& d) { d.runs[r].policy = "explicit"; d.runs[r].decisions.assign(dec.begin(), dec.begin() + n); return true; }; };
    if (attempt(with(0))) continue;
    if (dec.size() > 200000 || !attempt(with(dec.size()))) continue;
    size_t lo = 0, hi = dec.size();
    while (hi - lo > 1 && left()) { size_t m = (lo + hi) / 2; if (attempt(with(m))) hi = m; else lo = m; }
  }
  return c;
}

// ---------------------------------------------------------------- replay
static int do_replay(const std::string& file, bool quiet)
{
  json j = json::parse(read_file(file), nullptr, false);
  if (j.is_discarded()) { fprintf(stderr, "cannot read %s\n", file.c_str()); return 3; }
  Case c = j.at("case").get<Case>();
  Stats st;
  Verdict v = judge(c, st);
  if (v.bad.empty()) { if (!quiet) printf("not reproduced: the property holds on this history\n"); printf("CLASS \n"); return 0; }
  for (auto& b : v.bad) printf("%s\n", b.c_str());
  printf("CLASS %s\n", v.cls().c_str());
  printf("SIG %016lx\n", (unsigned long)v.sig);
  if (!quiet) printf("VIOLATION property=%s replay=%s\n", c.prop.c_str(), file.c_str());
  return 1;
}

// ---------------------------------------------------------------- check
struct Found { long idx; std::string msg; std::vector<std::string> bad; };
static int do_check(const std::string& self, const std::string& lib, const std::string& prop, const std::string& tier, uint64_t seed, const std::string& out,
                    long ncases, double secs, bool all, int W)
{
  double t0 = now();
  bool thorough = tier == "thorough";
  uint64_t base = hcomb(hcomb(seed, 0xbeef), hstr(prop));
  long* stop = (long*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  *stop = 1l << 60;
  std::vector<pid_t> pids;
  for (int w = 0; w < W; ++w) {
    pid_t p = fork();
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      Stats st;
      json found = json::array(), samples = json::array();
      long nondet = 0;
      double tl = now();
      std::string part = g_scratch + "/w" + std::to_string(w);
      auto dump = [&](bool fin) {
        json j = st;
        auto v = json::to_cbor(json{{"stats", j}, {"found", found}, {"samples", samples}, {"nondet", nondet}, {"fin", fin}});
        put_file(part + ".new", std::string(v.begin(), v.end()));
        rename((part + ".new").c_str(), part.c_str());
      };
      for (long i = w; i < ncases && i < __atomic_load_n(stop, __ATOMIC_SEQ_CST); i += W) {
        if (now() - t0 > secs) { st.notes["stopped by the time limit"]++; break; }
        Case c = gen_case(prop, hcomb(base, i), thorough);
        double ta = now();
        Verdict v = judge(c, st);
        if (now() - ta > 20) st.notes["slow cases"]++;
        if (i % 50 == w) {
          // the same seed again has to be the same execution
          Stats dummy;
          Case c2 = gen_case(prop, hcomb(base, i), thorough);
          Verdict v2 = judge(c2, dummy);
          st.reruns++;
          if (v2.sig != v.sig || v2.bad != v.bad) { nondet++; found.push_back({{"idx", i}, {"nondet", true}, {"bad", v.bad}}); }
        }
        if (samples.size() < 1 && v.nontrivial) samples.push_back(json(c));
        if (!v.bad.empty()) {
          found.push_back({{"idx", i}, {"bad", v.bad}, {"sig", v.sig}});
          if (!all) { long cur = __atomic_load_n(stop, __ATOMIC_SEQ_CST); while (i < cur && !__atomic_compare_exchange_n(stop, &cur, i, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {} }
        }
        if (now() - tl > 5) { dump(false); tl = now(); }
      }
      dump(true);
      _exit(0);
    }
    pids.push_back(p);
  }
  int bad_workers = 0;
  for (pid_t p : pids) { int s = 0; waitpid(p, &s, 0); if (!WIFEXITED(s) || WEXITSTATUS(s)) ++bad_workers; }
  double t1 = now();
  Stats st;
  std::vector<json> found;
  json samples = json::array();
  long nondet = 0;
  for (int w = 0; w < W; ++w) {
    std::string b = read_file(g_scratch + "/w" + std::to_string(w));
    if (b.empty()) continue;
    json j = json::from_cbor(b.begin(), b.end(), true, false);
    if (j.is_discarded()) continue;
    st.merge(j["stats"].get<Stats>());
    for (auto& f : j["found"]) found.push_back(f);
    if (samples.size() < 3) for (auto& s : j["samples"]) samples.push_back(s);
    nondet += j["nondet"].get<long>();
  }
  std::sort(found.begin(), found.end(), [](const json& a, const json& b) { return a["idx"].get<long>() < b["idx"].get<long>(); });
  int rc = 0;
  if (bad_workers) { printf("error: %d workers ended abnormally\n", bad_workers); rc = 3; }
  if (nondet) { printf("error: %ld cases did not repeat exactly\n", nondet); for (auto& f : found) if (f.contains("nondet")) printf("  case %ld\n", f["idx"].get<long>()); rc = 3; }
  if (all) {
    std::map<std::string, long> cl;
    for (auto& f : found) { std::string b = f["bad"].empty() ? "nondeterministic" : f["bad"][0].get<std::string>(); cl[b.substr(0, b.find(':'))]++; printf("case %ld: %s\n", f["idx"].get<long>(), b.c_str()); }
    for (auto& kv : cl) printf("TOTAL %ld %s\n", kv.second, kv.first.c_str());
  }
  long viol = 0;
  std::string rpath;
  // first pass: violations whose execution repeats exactly; second pass (code that reads undefined
  // memory does not execute identically): violations whose class repeats every time
  for (int pass = 0; pass < 2 && !viol; ++pass)
  for (auto& f : found) if (!f["bad"].empty() && !all && !bad_workers) {
    long idx = f["idx"];
    Case c = gen_case(prop, hcomb(base, idx), thorough);
    std::string first = f["bad"][0].get<std::string>(), cls = first.substr(0, first.find(':'));
    printf("case %ld: %s\n", idx, first.c_str());
    // gate: the same seed twice
    Stats d1;
    Verdict v1 = judge(c, d1), v2 = judge(c, d1);
    bool exact = !v1.bad.empty() && v1.sig == v2.sig && v1.bad == v2.bad && f.contains("sig") && v1.sig == f["sig"].get<uint64_t>();
    if (pass == 0 && !exact) { printf("case %ld does not repeat exactly\n", idx); rc = 3; continue; }
    if (pass == 1) {
      bool same = v1.cls() == cls && v2.cls() == cls;
      for (int q = 0; q < 3 && same; ++q) same = judge(c, d1).cls() == cls;
      if (!same) continue;
    }
    Case m = minimise(c, cls, thorough ? 180 : 60);
    Stats d2;
    Verdict vm = judge(m, d2);
    if (vm.cls() != cls) { m = c; vm = v1; }
    // readable trace of the failing run
    json log = json::array();
    if (vm.failing_run >= 0 && vm.failing_run < (int)m.runs.size()) {
      setenv("SIM_TRACE", "1", 1);
      Outcome o = exec_run(m.runs[vm.failing_run], nullptr, true);
      unsetenv("SIM_TRACE");
      size_t n = o.log.size(), b = n > 3000 ? n - 3000 : 0;
      for (size_t i = b; i < n; ++i) log.push_back(o.log[i]);
    }
    json rep = {{"property", prop}, {"seed", seed}, {"case_index", idx}, {"class", cls}, {"violations", vm.bad}, {"case", m}, {"original_case", c},
                {"minimisation", {{"tried", g_min_tries}, {"accepted", g_min_hits}}}, {"trace", log}, {"failing_run", vm.failing_run}};
    mkdir((out + "/replays").c_str(), 0755);
    rpath = out + "/replays/" + prop + "-" + std::to_string(seed) + "-" + std::to_string(idx) + ".json";
    put_file(rpath, rep.dump(1));
    // gate: a fresh process
    std::string cmd = "'" + self + "' replay --lib '" + lib + "' --quiet '" + rpath + "'";
    FILE* p = popen(cmd.c_str(), "r");
    std::string txt;
    char buf[4096];
    while (p && fgets(buf, sizeof buf, p)) txt += buf;
    if (p) pclose(p);
    if (txt.find("CLASS " + cls + "\n") == std::string::npos) { printf("error: a fresh process does not reproduce the violation: %s\n", txt.c_str()); rc = 3; continue; }
    for (auto& b : vm.bad) printf("minimised: %s\n", b.c_str());
    viol = 1;
    rc = 1;
    break;
  }
  double wall = now() - t0;
  json cov;
  cov["evaluations"] = st.cases;
  cov["distinct_nontrivial"] = (long)st.nt.size();
  cov["rule"] = std::string(nontrivial_rule(prop)) + ". Distinct: different hash of the complete event sequences of its executions.";
  cov["samples"] = samples;
  cov["simulated_runs"] = st.runs;
  cov["simulated_runs_per_hour"] = (long)(st.runs / std::max(1e-3, t1 - t0) * 3600);
  cov["seeds_per_hour"] = (long)(st.cases / std::max(1e-3, t1 - t0) * 3600);
  cov["simulated_seconds"] = st.simtime;
  cov["scheduler_steps"] = st.steps;
  cov["host_energy_evaluations"] = st.evals;
  cov["minimiser_iterations"] = st.iters;
  cov["case_kinds"] = st.kinds;
  cov["faults_fired"] = st.fired;
  cov["rare_conditions_reached"] = st.probes;
  cov["ends_of_runs"] = st.ends;
  cov["notes"] = st.notes;
  cov["distinct_interleavings"] = {{"count", (long)st.scheds.size()}, {"measure", "hash of the global order in which ranks arrive at and leave communication operations, multi-rank runs only"}};
  cov["distinct_executions"] = {{"count", (long)st.traces.size()}, {"measure", "hash of the complete event sequence of a run"}};
  cov["determinism"] = {{"cases_run_twice", st.reruns}, {"different", nondet}};
  cov["real_components"] = {"all of nlcglib (built from the working tree, one copy per rank)", "Kokkos (serial)", "OpenBLAS, LAPACKE", "libstdc++ streams and their file system calls"};
  cov["stub_components"] = {"MPI (simulated)", "host DFT code (model problem with known energy, operators and guarded buffers)", "scheduler of ranks", "clock", "allocation failures", "LAPACK failures", "file system faults and crashes"};
  json ev = {{"property", prop}, {"tier", tier}, {"seed", (long)seed}, {"level", "exploration"}, {"coverage", cov}, {"wall_s", wall}, {"violations", viol},
             {"assumptions", {"the simulated host and MPI follow their interfaces", "model problems have 1 to 16 (k-point, spin) pairs, 1 to 10 bands, 1 to 8 ranks", "a clean batch is evidence, not proof"}}};
  mkdir((out + "/evidence").c_str(), 0755);
  if (!all) put_file(out + "/evidence/" + prop + ".json", ev.dump(1) + "\n");
  printf("%s: %ld cases, %ld runs, %zu distinct executions, %zu interleavings, %.0f simulated s, %.1f s wall\n", prop.c_str(), st.cases, st.runs, st.traces.size(), st.scheds.size(), st.simtime, wall);
  if (all) { printf("%s\n", json(st.notes).dump().c_str()); printf("%s\n", json(st.fired).dump().c_str()); printf("%s\n", json(st.probes).dump().c_str()); printf("%s\n", json(st.ends).dump().c_str()); printf("%s nontrivial %zu\n", json(st.kinds).dump().c_str(), st.nt.size()); }
  if (rc == 1) printf("VIOLATION property=%s replay=%s\n", prop.c_str(), rpath.c_str());
  return rc;
}

int main(int argc, char** argv)
{
  setvbuf(stdout, nullptr, _IOLBF, 0);
  // same addresses in every process, one BLAS thread
  if (!getenv("NLCGSIM_CHILD")) {
    setenv("NLCGSIM_CHILD", "1", 1);
    setenv("OPENBLAS_NUM_THREADS", "1", 1);
    setenv("OMP_NUM_THREADS", "1", 1);
    // the same content in every newly allocated block
    setenv("GLIBC_TUNABLES", "glibc.malloc.tcache_count=0:glibc.malloc.perturb=1", 1);
    unsetenv("SIM_TRACE");
    unsetenv("NLCGLIB_DISABLE_NEWTON_EFERMI");
    int p = personality(0xffffffff);
    if (p >= 0) personality(p | ADDR_NO_RANDOMIZE);
    execv("/proc/self/exe", argv);
  }
  char me[4096];
  ssize_t k = readlink("/proc/self/exe", me, sizeof me - 1);
  std::string self(me, k > 0 ? k : 0);
  std::string mode = argc > 1 ? argv[1] : "", lib, prop, tier = "quick", out = ".", file;
  uint64_t seed = 1;
  long cases = -1;
  double secs = -1;
  bool all = false, quiet = false;
  int W = 8;
  for (int i = 2; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--lib") lib = nx();
    else if (a == "--prop") prop = nx();
    else if (a == "--tier") tier = nx();
    else if (a == "--seed") seed = strtoull(nx().c_str(), nullptr, 10);
    else if (a == "--out") out = nx();
    else if (a == "--cases") cases = atol(nx().c_str());
    else if (a == "--secs") secs = atof(nx().c_str());
    else if (a == "--workers") W = atoi(nx().c_str());
    else if (a == "--all") all = true;
    else if (a == "--quiet") quiet = true;
    else if (a == "--idx") file = nx();
    else file = a;
  }
  if (lib.empty()) { fprintf(stderr, "usage\n"); return 2; }
  load_libraries("", 8, lib);
  make_scratch();
  int rc = 2;
  if (mode == "replay") rc = do_replay(file, quiet);
  else if (mode == "show") {
    // one case of a batch, as JSON that replay understands
    Case c = gen_case(prop, hcomb(hcomb(hcomb(seed, 0xbeef), hstr(prop)), atol(file.c_str())), tier == "thorough");
    printf("%s\n", json{{"case", c}}.dump(1).c_str());
    rc = 0;
  } else if (mode == "check" && known_prop(prop)) {
    if (cases < 0) cases = tier == "thorough" ? 1000000000 : quick_cases(prop);
    if (secs < 0) secs = tier == "thorough" ? (getenv("VERIF_SECONDS") ? atof(getenv("VERIF_SECONDS")) : 1800) : 150;
    rc = do_check(self, lib, prop, tier, seed, out, cases, secs, all, W);
  }
  rm_scratch();
  fflush(stdout);
  _exit(rc);
}
