// Workload side of the simulator: plans, scenarios, payloads, helpers.
#pragma once
#include "core.h"
#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

struct Op { int actor = 0; int kind = 0; long a = 0, b = 0, c = 0, d = 0; };

struct Plan {
  std::string prop, scenario;
  sim::u64 seed = 0;
  std::map<std::string, long> p;        // parameters
  std::vector<Op> ops;
  sim::Knobs knobs;
  long get(const char* k, long def = 0) const { auto it = p.find(k); return it == p.end() ? def : it->second; }
};

struct Scenario {
  const char* name;
  void (*gen)(Plan& plan, sim::Rng& rng);
  void (*exec)(const Plan& plan);
};

void register_scenario(const Scenario* s);
const Scenario* find_scenario(const std::string& name);
struct RegScenario { RegScenario(const Scenario* s) { register_scenario(s); } };

// which scenarios serve a property, with weights
struct Use { const char* scenario; int weight; };
const std::vector<Use>& uses_of(const std::string& prop);

// default scheduling/fault knobs, swarm style
void gen_knobs(Plan& plan, sim::Rng& rng, bool timing_faults = true);

std::string plan_text(const Plan& p, const sim::Decision* dec, sim::u32 n);
bool parse_plan(const std::string& text, Plan& p, std::vector<sim::Decision>& dec, std::map<std::string, std::string>& meta);

static inline sim::u64 mix2(sim::u64 a, sim::u64 b) { sim::Rng r(a * 0x9E3779B97F4A7C15ull ^ (b + 0x1234567)); return r.next(); }
