// M03: Slice against Python's slice.indices() in 64-bit arithmetic.
#include <limits>
#include <sleipnir/autodiff/slice.hpp>

#include "vx.hpp"
using slp::Slice;
using slp::slicing::_;
using i64 = int64_t;

namespace {
struct Py {
  i64 start, stop, step;
};
// CPython's PySlice_AdjustIndices for optional start/stop
Py python(bool hs, i64 start, bool he, i64 stop, i64 step, i64 n) {
  i64 lower = step < 0 ? -1 : 0, upper = step < 0 ? n - 1 : n;
  auto clamp = [&](i64 v) {
    if (v < 0) {
      v += n;
      return v < lower ? lower : v;
    }
    return v > upper ? upper : v;
  };
  return {hs ? clamp(start) : step < 0 ? upper : lower, he ? clamp(stop) : step < 0 ? lower : upper, step};
}
void compare(Slice s, const Py& e, int n) {
  int count = s.adjust(n);
  vx_check(s.start == e.start, "the first index is Python's");
  vx_check(s.stop == e.stop, "the end is Python's");
  vx_check(s.step == e.step || (e.step == std::numeric_limits<int>::min() && s.step == -std::numeric_limits<int>::max()), "the step is Python's");
  i64 d = e.step < 0 ? e.start - e.stop : e.stop - e.start;
  int a = s.step < 0 ? -s.step : s.step;
  vx_check(count >= 0, "the count is not negative");
  // count = ceil(d / |step|), stated without division
  if (d <= 0) {
    vx_check(count == 0, "an empty range has no elements");
    vx_reach("empty");
  } else {
    vx_check(count >= 1 && count <= n, "no more elements than the sequence has");
    i64 span = i64(count - 1) * i64(a);  // from the first to the last element
    vx_check(span < d, "there is no extra element");
    vx_check(span + a >= d, "no element is missing");
    vx_check(e.start >= 0 && e.start < n, "the first element is in range");
    i64 last = e.step < 0 ? e.start - span : e.start + span;
    vx_check(last >= 0 && last < n, "the last element is in range");
    vx_reach("non-empty");
  }
}
int length() {
  int n = vx_i32("length");
  vx_assume(n >= 0);
  return n;
}
}  // namespace

IRX_HARNESS(m03_single, 1, 0, "any 32-bit index, any length >= 0; default and '_' slices") {
  int n = length();
  switch (vx_fork(vx_choose("form", 3))) {
    case 0: {
      int i = vx_i32("index");
      Slice s(i);
      int count = s.adjust(n);
      i64 k = i < 0 ? i64(i) + n : i64(i);
      if (k >= 0 && k < n) {
        vx_check(count == 1, "a valid index selects one element");
        vx_check(s.start == k, "a valid index selects that element");
        vx_check(s.step == 1, "a single index has step 1");
        vx_reach("valid");
      } else if (i < 0) {
        // i:i+1 of Python
        Py p = python(true, i, i != -1, i64(i) + 1, 1, n);
        vx_check(count == 0 && s.start == p.start && s.stop == p.stop, "an index before the start selects nothing");
        vx_reach("before");
      } else {
        vx_check(count == 0 && s.start == n, "an index past the end selects nothing");
        vx_reach("past");
      }
      break;
    }
    case 1: {
      Slice s(_);
      vx_check(s.adjust(n) == n, "'_' selects everything");
      vx_check(s.start == 0 && s.stop == n && s.step == 1, "'_' is the whole range");
      vx_reach("all");
      break;
    }
    case 2: {
      Slice s;
      vx_check(s.adjust(n) == 0, "the default slice is empty");
      vx_reach("default");
      break;
    }
  }
}
IRX_HARNESS(m03_two, 4, 0, "start and stop: any 32-bit value or omitted; any length >= 0") {
  uint32_t form = vx_fork(vx_choose("form", 4));
  int n = length(), a = vx_i32("start"), b = vx_i32("stop");
  switch (form) {
    case 0: return compare(Slice(a, b), python(true, a, true, b, 1, n), n);
    case 1: return compare(Slice(_, b), python(false, 0, true, b, 1, n), n);
    case 2: return compare(Slice(a, _), python(true, a, false, 0, 1, n), n);
    default: return compare(Slice(_, _), python(false, 0, false, 0, 1, n), n);
  }
}
IRX_HARNESS(m03_three, 8, 0, "start, stop and step: any 32-bit value or omitted (step 0 must be rejected); any length >= 0") {
  uint32_t form = vx_fork(vx_choose("form", 8));
  int n = length(), a = vx_i32("start"), b = vx_i32("stop"), c = vx_i32("step");
  if (form < 4 && c == 0) vx_expect_assert();
  switch (form) {
    case 0: return compare(Slice(a, b, c), python(true, a, true, b, c, n), n);
    case 1: return compare(Slice(_, b, c), python(false, 0, true, b, c, n), n);
    case 2: return compare(Slice(a, _, c), python(true, a, false, 0, c, n), n);
    case 3: return compare(Slice(_, _, c), python(false, 0, false, 0, c, n), n);
    case 4: return compare(Slice(a, b, _), python(true, a, true, b, 1, n), n);
    case 5: return compare(Slice(_, b, _), python(false, 0, true, b, 1, n), n);
    case 6: return compare(Slice(a, _, _), python(true, a, false, 0, 1, n), n);
    default: return compare(Slice(_, _, _), python(false, 0, false, 0, 1, n), n);
  }
}
IRX_HARNESS(m03_fields, 1, 0, "a Slice whose public fields were set directly: any start, stop, step and length >= 0") {
  int n = length(), a = vx_i32("start"), b = vx_i32("stop"), c = vx_i32("step");
  Slice s;
  s.start = a;
  s.stop = b;
  s.step = c;
  if (c == 0 || c == std::numeric_limits<int>::min()) vx_expect_assert();
  compare(s, python(true, a, true, b, c, n), n);
}
