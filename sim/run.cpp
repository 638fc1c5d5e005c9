#include "run.hpp"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <dirent.h>
#include <fcntl.h>
#include <malloc.h>
#include <poll.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

std::string g_scratch;
long g_runs = 0;
void io_alloc_newcall(int r);
long io_alloc_count(int r);
long io_alloc_fired();
void io_count_allocs(bool);
std::map<std::string, std::vector<long>>& lapack_counts();
long io_total_ops();
std::vector<long> mpi_commcalls();
size_t libmem_live();
void libmem_enable(bool);

static double num(const json& j, const char* k) { return j.contains(k) && j[k].is_number() ? j[k].get<double>() : std::nan(""); }

std::vector<JRec> parse_journal(const std::string& t, std::string& tail, std::string& error)
{
  std::vector<JRec> out;
  size_t pos = 0;
  tail.clear(); error.clear();
  while (pos < t.size()) {
    while (pos < t.size() && isspace((unsigned char)t[pos])) ++pos;
    if (pos >= t.size()) break;
    if (t[pos] != '{') { error = "unexpected character at the start of a record"; tail = t.substr(pos); return out; }
    int depth = 0; bool str = false, esc = false; size_t i = pos;
    for (; i < t.size(); ++i) {
      char c = t[i];
      if (str) { if (esc) esc = false; else if (c == '\\') esc = true; else if (c == '"') str = false; }
      else if (c == '"') str = true;
      else if (c == '{' || c == '[') ++depth;
      else if (c == '}' || c == ']') { if (--depth == 0) break; }
    }
    if (i >= t.size()) { tail = t.substr(pos); return out; }
    std::string rec = t.substr(pos, i - pos + 1);
    json j = json::parse(rec, nullptr, false);
    if (j.is_discarded() || !j.is_object()) { error = "record is not valid JSON"; tail = t.substr(pos); return out; }
    JRec r;
    r.text = rec;
    r.step = j.contains("step") && j["step"].is_number_integer() ? j["step"].get<int>() : -1;
    r.F = num(j, "F"); r.EKS = num(j, "EKS"); r.entropy = num(j, "entropy"); r.slope = num(j, "slope_x"); r.mu = num(j, "fermi_energy");
    for (const char* nm : {"eta", "fn"})
      if (j.contains(nm)) {
        r.lists = true;
        for (auto& e : j[nm]) {
          if (!e.is_object() || !e.contains("ik") || !e.contains("ispn") || !e.contains("value")) { error = "malformed list entry"; continue; }
          Key k{e["ik"].get<int>(), e["ispn"].get<int>()};
          std::vector<double> v;
          for (auto& x : e["value"]) v.push_back(x.is_number() ? x.get<double>() : std::nan(""));
          auto& m = nm[0] == 'e' ? r.eta : r.fn;
          if (m.count(k)) error = "k-point listed twice";
          m[k] = v;
        }
      }
    out.push_back(r);
    pos = i + 1;
  }
  return out;
}

bool Outcome::all_returned() const
{
  if (!ok || end != "done") return false;
  for (auto& c : calls) for (auto& r : c.res) if (r.status != 0) return false;
  return true;
}
std::string Outcome::digest() const
{
  std::string s = ok ? end : death;
  char b[200];
  for (auto& c : calls) {
    snprintf(b, sizeof b, "|%016lx,%zu", (unsigned long)c.hash, c.nevals);
    s += b;
    for (auto& r : c.res) {
      snprintf(b, sizeof b, ";%d,%016lx,%016lx,%016lx,%d,%d,%s", r.status, (unsigned long)dbits(r.tolerance), (unsigned long)dbits(r.F), (unsigned long)dbits(r.S), r.iter, (int)r.converged, r.etype.c_str());
      s += b;
    }
  }
  return s;
}

// ---------------------------------------------------------------- serialisation
static json jd(const std::vector<double>& v) { json a = json::array(); for (double x : v) a.push_back(dbits(x)); return a; }
static std::vector<double> dj(const json& a) { std::vector<double> v; for (auto& x : a) { uint64_t u = x.get<uint64_t>(); double d; memcpy(&d, &u, 8); v.push_back(d); } return v; }
static double d1(const json& x) { uint64_t u = x.get<uint64_t>(); double d; memcpy(&d, &u, 8); return d; }

static std::string pack_outcome(const Outcome& o, bool dec)
{
  json j;
  j["end"] = o.end; j["detail"] = o.end_detail; j["erank"] = o.end_rank;
  j["trace"] = o.trace; j["sched"] = o.sched; j["steps"] = o.steps; j["time"] = o.simtime;
  if (dec) j["dec"] = o.decisions;
  j["fired"] = o.fired; j["probes"] = o.probes; j["bad"] = o.bad; j["allocs"] = o.allocs; j["lapack"] = o.lapack; j["comm"] = o.commcalls;
  j["io"] = o.io_ops; j["dj"] = o.disk_journal; j["dje"] = o.disk_journal_exists; j["log"] = o.log; j["extra"] = o.extra; j["iolog"] = o.iolog;
  json cs = json::array();
  for (auto& c : o.calls) {
    json x;
    json rr = json::array();
    for (auto& r : c.res) rr.push_back({r.status, dbits(r.tolerance), dbits(r.F), dbits(r.S), r.iter, r.converged, r.etype, r.what, r.eid});
    x["res"] = rr; x["hash"] = c.hash; x["nev"] = c.nevals; x["marks"] = c.marks; x["F"] = jd(c.F); x["slope"] = jd(c.slope); x["E"] = jd(c.Erep);
    x["j"] = c.journal; x["l"] = c.log; x["hj"] = c.have_journal; x["hl"] = c.have_log; x["so"] = c.sout; x["mu"] = jd(c.mu_last); x["cb"] = c.cb; x["cp"] = c.complaints;
    x["lt"] = c.live_types; x["lc"] = c.live_comms; x["fd"] = c.nfds; x["heap"] = c.heap;
    json f = json::array(); for (auto& v : c.fn_last) f.push_back(jd(v)); x["fn"] = f;
    cs.push_back(x);
  }
  j["calls"] = cs;
  auto v = json::to_cbor(j);
  return std::string(v.begin(), v.end());
}
static void unpack_outcome(const std::string& s, Outcome& o)
{
  json j = json::from_cbor(s.begin(), s.end());
  o.ok = true;
  o.end = j["end"]; o.end_detail = j["detail"]; o.end_rank = j["erank"];
  o.trace = j["trace"]; o.sched = j["sched"]; o.steps = j["steps"]; o.simtime = j["time"];
  if (j.contains("dec")) o.decisions = j["dec"].get<std::vector<int>>();
  j["fired"].get_to(o.fired); j["probes"].get_to(o.probes); j["bad"].get_to(o.bad); j["allocs"].get_to(o.allocs); j["lapack"].get_to(o.lapack); j["comm"].get_to(o.commcalls);
  o.io_ops = j["io"]; o.disk_journal = j["dj"]; o.disk_journal_exists = j["dje"]; j["log"].get_to(o.log); o.extra = j["extra"]; j["iolog"].get_to(o.iolog);
  for (auto& x : j["calls"]) {
    CallOut c;
    for (auto& r : x["res"]) {
      RankResult q;
      q.status = r[0]; q.tolerance = d1(r[1]); q.F = d1(r[2]); q.S = d1(r[3]); q.iter = r[4]; q.converged = r[5]; q.etype = r[6]; q.what = r[7]; q.eid = r[8];
      c.res.push_back(q);
    }
    c.hash = x["hash"]; c.nevals = x["nev"]; c.marks = x["marks"].get<std::vector<size_t>>(); c.F = dj(x["F"]); c.slope = dj(x["slope"]); c.Erep = dj(x["E"]);
    c.journal = x["j"]; c.log = x["l"]; c.have_journal = x["hj"]; c.have_log = x["hl"]; c.sout = x["so"]; c.mu_last = dj(x["mu"]); x["cb"].get_to(c.cb); x["cp"].get_to(c.complaints);
    c.live_types = x["lt"]; c.live_comms = x["lc"]; c.nfds = x["fd"]; c.heap = x["heap"];
    for (auto& v : x["fn"]) c.fn_last.push_back(dj(v));
    o.calls.push_back(c);
  }
}

// ---------------------------------------------------------------- child
static std::vector<CallOut> call_out;
static long count_fds()
{
  long n = 0;
  DIR* d = opendir("/proc/self/fd");
  if (!d) return -1;
  while (readdir(d)) ++n;
  closedir(d);
  return n;
}
static void snapshot_call(int c)
{
  CallOut& o = call_out[c];
  o.journal = read_file("nlcg.json", &o.have_journal);
  o.log = read_file("nlcg.out", &o.have_log);
  o.sout = S->out[0];
  o.live_types = S->live_types; o.live_comms = S->live_comms;
  o.nfds = count_fds();
  o.heap = libmem_live();
}
static void body(int r)
{
  static std::vector<int> world;
  if (world.size() != (size_t)S->nranks) { world.clear(); for (int i = 0; i < S->nranks; ++i) world.push_back(i); }
  for (int c = 0; c < (int)S->spec.calls.size(); ++c) {
    sim_yield("before call");
    host_new_call(c);
    S->rank_call[r] = c;
    S->call = std::max(S->call, c);
    io_alloc_newcall(r);
    RankResult res = host_run_call(r, c);
    S->results[c][r] = res;
    host_call_done(r, c);
    sim_event(r, "call ends", dbits(res.F));
    sim_rendezvous(0, world, "call_end", (uint64_t)c, nullptr, [c](Rendezvous&) { snapshot_call(c); });
  }
}

static void write_all(int fd, const std::string& s)
{
  size_t p = 0;
  while (p < s.size()) { ssize_t k = syscall(SYS_write, fd, s.data() + p, s.size() - p); if (k <= 0) _exit(3); p += k; }
}

static void child_main(const RunSpec& spec, const Oracle& oracle, bool dec, bool count, int fd)
{
  if (spec.skip_newton) setenv("NLCGLIB_DISABLE_NEWTON_EFERMI", "1", 1); else unsetenv("NLCGLIB_DISABLE_NEWTON_EFERMI");
  call_out.assign(spec.calls.size(), CallOut());
  g_hist.clear();
  io_count_allocs(count);
  libmem_enable(spec.track_mem);
  sim_run(spec, body);
  S->current = -1;
  Outcome o;
  o.end = runend_name(S->end);
  o.end_detail = S->end_detail;
  o.end_rank = S->end_rank;
  o.trace = S->trace_hash; o.sched = S->sched_hash; o.steps = S->steps;
  int64_t t = 0;
  for (auto x : S->clock) t = std::max(t, x);
  o.simtime = (t - 1700000000ll * 1000000000ll) * 1e-9;
  o.decisions = S->decisions;
  o.fired = S->fired;
  if (io_alloc_fired()) o.fired["alloc"] = io_alloc_fired();
  o.probes = S->probes;
  for (auto& m : S->misuse) o.extra["misuse"].push_back(m);
  o.extra["threads"] = S->threads_created;
  for (int r = 0; r < S->nranks; ++r) o.allocs.push_back(io_alloc_count(r));
  o.lapack = lapack_counts();
  o.commcalls = mpi_commcalls();
  o.io_ops = io_total_ops();
  o.disk_journal = read_file("nlcg.json", &o.disk_journal_exists);
  o.log = S->log;
  for (size_t c = 0; c < spec.calls.size(); ++c) {
    CallOut& x = call_out[c];
    x.res = S->results[c];
    if (c < g_hist.size()) {
      auto& h = g_hist[c];
      x.hash = h.hash();
      x.nevals = h.ev.size();
      if (!h.marks.empty()) x.marks = h.marks[0];
      for (auto& e : h.ev) x.Erep.push_back(e.E_rep);
      x.mu_last = h.chem_set;
      if (!h.cb.empty()) x.cb = h.cb[0];
      x.complaints = h.complaints;
      if (!h.ev.empty()) x.fn_last = h.ev.back().fn;
    }
    std::string tail, err;
    for (auto& r : parse_journal(x.journal, tail, err)) { x.F.push_back(r.F); x.slope.push_back(r.slope); }
    o.calls.push_back(x);
  }
  o.ok = true;
  if (oracle) oracle(o);
  write_all(fd, pack_outcome(o, dec));
  _exit(0);
}

static void clean_dir(const std::string& d)
{
  DIR* dp = opendir(d.c_str());
  if (!dp) return;
  while (dirent* e = readdir(dp)) {
    std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    unlinkat(AT_FDCWD, (d + "/" + n).c_str(), 0);
  }
  closedir(dp);
  rmdir(d.c_str());
}

Outcome exec_run(const RunSpec& spec, const Oracle& oracle, bool dec, bool count)
{
  ++g_runs;
  Outcome o;
  std::string dir = g_scratch + "/r" + std::to_string(getpid());
  mkdir(dir.c_str(), 0755);
  int fds[2];
  if (pipe(fds)) { o.death = "pipe"; return o; }
  pid_t pid = fork();
  if (pid == 0) {
    close(fds[0]);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (chdir(dir.c_str())) _exit(4);
    int nul = open("out.txt", O_CREAT | O_TRUNC | O_RDWR, 0644);
    int e = open("err.txt", O_CREAT | O_TRUNC | O_RDWR, 0644);
    dup2(nul, 1); dup2(e, 2);
    close(nul); close(e);
    struct rlimit rl{90, 95};
    setrlimit(RLIMIT_CPU, &rl);
    struct rlimit core{0, 0};
    setrlimit(RLIMIT_CORE, &core);
    struct rlimit as{6ull << 30, 6ull << 30};
    setrlimit(RLIMIT_AS, &as);
    child_main(spec, oracle, dec, count, fds[1]);
    _exit(5);
  }
  close(fds[1]);
  std::string buf;
  char tmp[65536];
  struct timespec t0;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t0);
  bool timeout = false;
  while (true) {
    struct pollfd p{fds[0], POLLIN, 0};
    int k = poll(&p, 1, 2000);
    if (k > 0) {
      ssize_t n = read(fds[0], tmp, sizeof tmp);
      if (n > 0) { buf.append(tmp, n); continue; }
      if (n == 0) break;
      if (errno != EINTR) break;
    }
    struct timespec t1;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t1);
    if (t1.tv_sec - t0.tv_sec > 400) { kill(pid, SIGKILL); timeout = true; break; }
  }
  close(fds[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !buf.empty()) unpack_outcome(buf, o);
  else {
    if (timeout) o.death = "no progress (wall time limit)";
    else if (WIFSIGNALED(st)) o.death = std::string("killed by signal ") + std::to_string(WTERMSIG(st)) + (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL ? " (no progress: CPU time limit)" : "");
    else o.death = "exit code " + std::to_string(WEXITSTATUS(st));
    std::string err = read_file(dir + "/err.txt");
    if (err.size() > 400) err = err.substr(0, 400);
    for (auto& c : err) if (c == '\n') c = ' ';
    if (!err.empty()) o.death += ": " + err;
  }
  clean_dir(dir);
  return o;
}
