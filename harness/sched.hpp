// Explores every schedule of a scenario within a bound.
//
// Each execution is made in a process of its own, forked from this one, so that
// it starts from the same memory; the choices it met are explored depth first.
#pragma once
#include <sys/mman.h>
#include <sys/wait.h>

#include "vpsched.h"
#include "vp.hpp"

namespace sc {
using vp::R;
using vp::Str;

struct Plan {
  int bound = 2;          // preemptions
  int delay = 0;          // 1: bound counts every choice that is not the default one
  int hw = -1;            // processors reported
  int refuse = -1;        // first thread that is refused
  bool refuse_all = true;
  int limit = 20000;      // executions
  bool alive_ok = false;
};
struct Seen {
  uint32_t executions = 0, created = 0, refused = 0;
  std::set<uint64_t> outcomes;
  bool cut = false;
};
inline VpExecution* page() {
  static VpExecution* x = static_cast<VpExecution*>(mmap(nullptr, sizeof(VpExecution), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  return x;
}
// scenario(VpExecution*) runs in a child: it returns what is wrong ("" if nothing)
template <typename F>
Seen explore(const std::string& what, const std::string& key, const Plan& plan, F&& scenario) {
  VpExecution* x = page();
  Seen seen;
  std::vector<uint8_t> prefix;
  std::vector<uint64_t> shared;
  std::set<std::string> told;
  uint32_t first_told = 0;
  // enough is known: the rest would only take time
  static int enough = 0;
  if (enough >= 10) { R.count("scenarios left out after violations"); return seen; }
  std::string trail;
  auto tell = [&](const std::string& kind, const std::string& m) {
    if (!told.insert(kind).second) return;
    std::string s = "schedule";
    for (uint32_t i = 0; i < x->n_choices && i < 60; ++i) s += Str() << " " << int(x->chosen[i]) << "/" << int(x->options[i]);
    R.fail(key + ":" + kind, Str() << what << ": " << m << " [" << s << ", " << x->created << " threads started]");
  };
  for (int tries = 0; ; ++tries) {
    std::memset(x, 0, sizeof *x);
    x->bound = plan.bound;
    x->delay = plan.delay;
    x->hw = plan.hw;
    x->fail_create = plan.refuse;
    x->fail_all = plan.refuse_all;
    x->n_prefix = uint32_t(std::min<size_t>(prefix.size(), sizeof x->prefix));
    for (uint32_t i = 0; i < x->n_prefix; ++i) x->prefix[i] = prefix[i];
    x->n_shared = uint32_t(shared.size());
    for (size_t i = 0; i < shared.size(); ++i) x->shared[i] = shared[i];
    const pid_t pid = fork();
    if (pid == 0) {
      alarm(30);
      vp_begin(x);
      std::string bad;
      bad = scenario(x);
      vp_end();
      std::snprintf(x->failure, sizeof x->failure, "%s", bad.c_str());
      x->done = 1;
      _exit(0);
    }
    int status = 0;
    if (pid < 0 || waitpid(pid, &status, 0) != pid) { std::fprintf(stderr, "fork failed\n"); std::exit(3); }
    ++seen.executions;
    R.transition(x->syncs);
    R.trace();
    if (x->problem[0]) {
      const std::string p = x->problem;
      tell(p.substr(0, 8) == "deadlock" ? "deadlock" : p.substr(0, 14) == "use after free" ? "freed" : p.substr(0, 6) == "unsync" ? "race" : "runtime", p);
    } else if (WIFSIGNALED(status)) {
      tell(WTERMSIG(status) == SIGALRM ? "hang" : "died", Str() << "the process ended with signal " << WTERMSIG(status));
    } else if (!x->done) {
      tell("died", Str() << "the process ended with code " << WEXITSTATUS(status));
    } else {
      if (x->failure[0]) tell("wrong", x->failure);
      if (x->live_at_end && !plan.alive_ok) tell("live", Str() << x->live_at_end << " threads still run at the end");
    }
    seen.outcomes.insert(x->outcome);
    seen.created = std::max(seen.created, x->created);
    seen.refused = std::max(seen.refused, x->refused);
    if (first_told == 0 && !told.empty()) first_told = seen.executions;  // a few more, for other kinds
    R.count("schedules");
    if (std::getenv("VP_SLOW") && seen.executions == 1) std::fprintf(stderr, "%u accesses, %u syncs: %s\n", x->accesses, x->syncs, what.c_str());
    // states: prefixes of the schedules
    {
      uint64_t h = vp::hash(key + what);
      for (uint32_t i = 0; i < x->n_choices; ++i) { h = vp::mix(h, x->chosen[i] * 64 + x->options[i]); if (i >= x->n_prefix || i + 1 == x->n_choices) R.state(h); }
      if (x->n_choices == 0) R.state(h);
    }
    if (x->truncated) seen.cut = true;
    if (x->found_shared) {
      // an atomic is shared: its operations become points of choice, start again
      shared.assign(x->shared, x->shared + x->n_shared);
      prefix.clear();
      continue;
    }
    if (seen.executions >= uint32_t(plan.limit) || told.size() >= 3 || (first_told != 0 && seen.executions >= first_told + 20)) { seen.cut = told.empty(); break; }
    int i = int(x->n_choices) - 1;
    while (i >= 0 && x->chosen[i] + 1 >= x->options[i]) --i;
    if (i < 0) break;
    prefix.assign(x->chosen, x->chosen + i + 1);
    ++prefix[i];
  }
  enough += !told.empty();
  if (seen.cut) { R.count("scenarios cut at the limit of executions"); R.sample("cut: " + what); }
  if (std::getenv("VP_SLOW") && seen.executions > 200) std::fprintf(stderr, "%u executions: %s\n", seen.executions, what.c_str());
  return seen;
}
}  // namespace sc
