// Executes one simulated run in a child process and returns what happened.
#pragma once
#include "core.hpp"
#include "host.hpp"

struct JRec   // one record of nlcg.json
{
  int step = -1;
  double F = 0, EKS = 0, entropy = 0, slope = 0, mu = 0;
  bool lists = false;
  std::map<Key, std::vector<double>> eta, fn;
  std::string text;
};
// parse concatenated records; `tail` gets what is left behind the last complete one
std::vector<JRec> parse_journal(const std::string& text, std::string& tail, std::string& error);

struct CallOut
{
  std::vector<RankResult> res;
  uint64_t hash = 0;           // all states, energies, chemical potentials
  size_t nevals = 0;
  std::vector<size_t> marks;   // rank 0
  std::vector<double> F, slope;// from the journal
  std::vector<double> Erep;
  std::string journal, log;    // files at the end of the call
  bool have_journal = false, have_log = false;
  std::string sout;            // stdout of rank 0 up to the end of the call
  double E_last = 0;
  std::vector<double> mu_last;
  std::map<std::string, long> cb;
  std::vector<std::string> complaints;
  std::vector<std::vector<double>> fn_last;
  long live_types = 0, live_comms = 0, nfds = 0; size_t heap = 0;
};

struct Outcome
{
  bool ok = false;             // the child delivered an outcome
  std::string death;           // otherwise: how it died
  std::string end, end_detail;
  int end_rank = -1;
  std::vector<CallOut> calls;
  uint64_t trace = 0, sched = 0;
  long steps = 0;
  double simtime = 0;
  std::vector<int> decisions;
  std::map<std::string, long> fired, probes;
  std::vector<std::string> bad;    // violations found by the oracle inside the child
  std::vector<long> allocs;        // per rank, in the last call
  std::map<std::string, std::vector<long>> lapack;
  std::vector<long> commcalls;
  long io_ops = 0;
  std::vector<std::string> iolog;
  std::string disk_journal; bool disk_journal_exists = false;
  std::vector<std::string> log;
  json extra;
  bool all_returned() const;
  std::string digest() const;      // bitwise comparable summary of results and states
};

// an oracle looks at the complete history inside the child
typedef std::function<void(Outcome&)> Oracle;
Outcome exec_run(const RunSpec& spec, const Oracle& oracle = nullptr, bool want_decisions = false, bool count_allocs = false);
extern std::string g_scratch;
extern long g_runs;
