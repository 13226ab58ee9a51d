// S12: multistart over every combination of exit statuses, any costs, and every
// order in which the solves finish.
#include <condition_variable>
#include <mutex>

#include "jet.hpp"

#include <sleipnir/optimization/multistart.hpp>

using symx::H;
using St = slp::ExitStatus;
struct Guess {
  int id;
  S value;
};
using Res = slp::MultistartResult<S, Guess>;

static void s12(H& h, int n, int nstatus, bool special, bool any_order = true) {
  static const St sts[] = {St::SUCCESS, St::MAX_ITERATIONS_EXCEEDED, St::LOCALLY_INFEASIBLE, St::CALLBACK_REQUESTED_STOP, St::NONFINITE_INITIAL_GUESS};
  std::vector<Guess> guesses;
  std::vector<Res> answers;
  for (int i = 0; i < n; ++i) {
    std::string t = std::to_string(i);
    guesses.push_back({i, h.real("guess" + t)});
    St st = sts[h.choose("status" + t, nstatus)];
    S cost = h.real("cost" + t);
    if (special && st != St::SUCCESS) {
      int c = h.choose("failed cost" + t, 3);
      if (c) cost = S(c == 1 ? std::numeric_limits<double>::quiet_NaN() : -std::numeric_limits<double>::infinity());
    }
    answers.push_back({st, cost, {i, h.real("solution" + t)}});
  }
  // The order in which the solves finish, where the caller lets them overlap.
  std::vector<int> rank(n), left;
  for (int i = 0; i < n; ++i) left.push_back(i);
  for (int k = 0; k < n; ++k) {
    int c = any_order && left.size() > 1 ? h.choose("finishes " + std::to_string(k), static_cast<int>(left.size())) : 0;
    rank[left[c]] = k;
    left.erase(left.begin() + c);
  }
  std::mutex m;
  std::condition_variable cv;
  int finished = 0, inside = 0;
  bool overlap = true;
  std::vector<int> runs(n, 0);
  std::vector<Guess> seen(n);
  auto solve = [&](const Guess& g) -> Res {
    std::unique_lock l{m};
    ++runs[g.id];
    seen[g.id] = g;
    ++inside;
    cv.notify_all();
    if (overlap && !cv.wait_for(l, std::chrono::milliseconds(300), [&] { return finished == rank[g.id]; })) overlap = false;
    ++finished;
    cv.notify_all();
    return answers[g.id];
  };
  slp::function_ref<Res(const Guess&)> fr{solve};
  Res r = slp::multistart<S, Guess>(fr, std::span<const Guess>{guesses});
  bool any = false;
  for (int i = 0; i < n; ++i) {
    h.eq("each start is solved once", runs[i], 1);
    h.check_eq("each solve gets its own start", seen[i].value, guesses[i].value);
    any = any || answers[i].status == St::SUCCESS;
  }
  int k = r.variables.id;
  h.check("the result is one of the solves'", k >= 0 && k < n);
  if (k < 0 || k >= n) return;
  h.check("the status is that solve's", r.status == answers[k].status);
  if (isfinite(answers[k].cost)) h.check_eq("the cost is that solve's", r.cost, answers[k].cost);
  h.check_eq("the variables are that solve's", r.variables.value, answers[k].variables.value);
  if (any) {
    h.check("a successful solve is preferred", r.status == St::SUCCESS);
    for (int i = 0; i < n; ++i)
      if (answers[i].status == St::SUCCESS) h.check_le("no successful solve has a lower cost", r.cost, answers[i].cost);
    h.reach("some solve succeeded");
  } else {
    h.reach("no solve succeeded");
  }
  h.reach(overlap ? "the solves overlapped" : "the solves did not overlap");
}
HARNESS_SHARDED(s12_select, 3, "1 to 3 starts, statuses success, iteration limit, infeasible, stopped by callback and non-finite start (3 starts: the first 3), any finite costs, every finishing order") {
  int sh = h.choose("shard", 3);
  s12(h, sh + 1, sh == 2 ? 3 : 5, false);
}
HARNESS(s12_failed_cost, "2 and 3 starts, success or iteration limit, failed solves also with NaN or infinitely low cost; every finishing order") {
  s12(h, 2 + h.flip("three"), 2, true);
}
HARNESS(s12_six, "6 starts, success or iteration limit, any finite costs, finishing in starting order") {
  s12(h, 6, 2, false, false);
}
HARNESS(s12_select_larger, "4 starts, success or iteration limit, any finite costs, every finishing order") {
  s12(h, 4, 2, false);
}
