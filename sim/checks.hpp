// Cases, oracles and verdicts of the properties.
#pragma once
#include "gen.hpp"
#include "refmodel.hpp"
#include "run.hpp"
#include <set>

struct Case
{
  std::string prop, kind;
  uint64_t seed = 0;
  std::vector<RunSpec> runs;
  json extra = json::object();
};
void to_json(json&, const Case&);
void from_json(const json&, Case&);

struct Stats
{
  long cases = 0, runs = 0, reruns = 0, steps = 0, evals = 0, iters = 0, nontrivial = 0;
  double simtime = 0;
  std::map<std::string, long> kinds, fired, probes, ends, notes;
  std::set<uint64_t> scheds, traces, nt;
  void merge(const Stats&);
};
void to_json(json&, const Stats&);
void from_json(const json&, Stats&);

struct Verdict
{
  std::vector<std::string> bad;   // "class: detail"
  bool nontrivial = false;
  uint64_t sig = 0;               // identity of the executions
  int failing_run = -1;           // run whose history shows it
  std::string cls() const { return bad.empty() ? "" : bad[0].substr(0, bad[0].find(':')); }
};

bool known_prop(const std::string&);
Case gen_case(const std::string& prop, uint64_t seed, bool thorough);
Verdict judge(const Case&, Stats&);
long quick_cases(const std::string& prop);
const char* nontrivial_rule(const std::string& prop);
