// VH-SRC: mbo/status/status_builder.cc
// VH-VARIANT: gcc CXX=g++
// VH-VARIANT: clang CXX=clang++ OPT=-O2 STD=c++23
// VH-RULE: random sequences of builder operations (streaming values of many types, prepend and append mode, payloads, moves, conversions in between) on statuses of every code, compared with a model of code, message and payloads; programs of steps built on the return and assign macros in statement positions of every kind with a failing step, compared by the trace of evaluations, the returned status and the counted copies and moves of the values
#include <cstdint>
#include <iomanip>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <tuple>
#include <vector>

#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/cord.h"
#include "mbo/status/status.h"
#include "mbo/status/status_builder.h"
#include "mbo/status/status_macros.h"
#include "vh.h"

namespace {
using mbo::status::StatusBuilder;
using Payloads = std::map<std::string, std::string>;

Payloads PayloadsOf(const absl::Status& s) {
  Payloads r;
  s.ForEachPayload([&](std::string_view url, const absl::Cord& c) { r[std::string(url)] = std::string(c); });
  return r;
}
std::string Show(const absl::Status& s) {
  std::string r = std::to_string(static_cast<int>(s.code())) + " " + vh::Json(s.message());
  for (const auto& [u, p] : PayloadsOf(s)) { r += " [" + vh::Json(u) + "=" + vh::Json(p) + "]"; }
  return r;
}
absl::StatusCode RandomCode(vh::Rng& r) { return static_cast<absl::StatusCode>(1 + r.Below(16)); }
absl::Status RandomError(vh::Rng& r) {
  absl::Status s(RandomCode(r), r.Chance(1, 4) ? r.Content(r.Below(40)) : r.Text("abc <>", r.Below(12)));
  for (std::uint64_t n = r.Below(3); n > 0; --n) { s.SetPayload(r.Text("ab", 1 + r.Below(3)), absl::Cord(r.Content(r.Below(20)))); }
  return s;
}
struct Streamable { int v; };
[[maybe_unused]] std::ostream& operator<<(std::ostream& os, const Streamable& s) { return os << "<" << s.v << ">"; }
int g_streamed = 0;
struct Noted {};
[[maybe_unused]] std::ostream& operator<<(std::ostream& os, const Noted& /*n*/) { ++g_streamed; return os << "N"; }

struct Model {
  absl::StatusCode code = absl::StatusCode::kOk;
  std::string msg, before, after;
  bool prepend = false, append = false;
  Payloads payloads;
  void Text(const std::string& t) { (append ? after : before) += t; }
  bool Accept(const absl::Status& s) const {
    if (code == absl::StatusCode::kOk) { return s.ok() && s.message().empty() && PayloadsOf(s).empty(); }
    if (s.code() != code || PayloadsOf(s) != payloads) { return false; }
    if (append) { return s.message() == before + msg + after || (!prepend && s.message() == msg + before + after); }
    return s.message() == (prepend ? before + msg : msg + before);
  }
  std::string Show() const {
    return std::to_string(static_cast<int>(code)) + " before " + vh::Json(before) + " message " + vh::Json(msg) + " after " + vh::Json(after) + (prepend ? " prepend" : "") + (append ? " append" : "") + " " + std::to_string(payloads.size()) + " payloads";
  }
};
// Applies `f` in one of the two forms.
template <typename F>
void Apply(vh::Rng& r, StatusBuilder& b, F f) {
  if (r.Coin()) {
    StatusBuilder& x = f(b);
    vh::Check(&x == &b, "chain", "the lvalue form does not return the builder");
  } else {
    StatusBuilder t = f(std::move(b));
    b = std::move(t);
    vh::Count("rvalue_forms");
  }
}
void Builder(vh::Rng& r) {
  const bool ok = r.Chance(1, 5);
  absl::Status start = ok ? absl::OkStatus() : RandomError(r);
  Model m{start.code(), std::string(start.message())};
  m.payloads = PayloadsOf(start);
  const std::string first = Show(start);
  std::optional<StatusBuilder> made;
  switch (r.Below(ok ? 6 : 5)) {
    case 0: made.emplace(start); break;
    case 1: made.emplace(std::move(start)); break;
    case 2: { const absl::StatusOr<int> so = ok ? absl::StatusOr<int>(3) : absl::StatusOr<int>(start); made.emplace(so); break; }
    case 3: { absl::StatusOr<std::unique_ptr<int>> so = ok ? absl::StatusOr<std::unique_ptr<int>>(std::make_unique<int>(3)) : absl::StatusOr<std::unique_ptr<int>>(start); made.emplace(std::move(so)); break; }
    case 4: made.emplace(mbo::status::GetStatus(start)); break;
    default: made.emplace(); break;
  }
  StatusBuilder& b = *made;
  std::string ops;
  if (!ok && r.Chance(1, 2)) {
    Apply(r, b, [](auto&& x) -> decltype(auto) { return std::forward<decltype(x)>(x).SetPrepend(); });
    m.prepend = true;
    ops += "SetPrepend ";
  }
  const std::size_t n = r.Below(9);
  g_streamed = 0;
  int want_streamed = 0;
  for (std::size_t i = 0; i < n; ++i) {
    switch (r.Below(9)) {
      case 0: { const std::string t = r.Coin() ? r.Text("xyz ", r.Below(5)) : r.Bytes(r.Below(5)); Apply(r, b, [&](auto&& x) -> decltype(auto) { return std::forward<decltype(x)>(x) << t; }); m.Text(t); ops += "text "; break; }
      case 1: { const std::string t = r.Text("pq", r.Below(5)); Apply(r, b, [&](auto&& x) -> decltype(auto) { return std::forward<decltype(x)>(x) << t.c_str() << std::string_view(t); }); m.Text(t + t); ops += "chars "; break; }
      case 2: { const int v = static_cast<int>(r.Next()); Apply(r, b, [&](auto&& x) -> decltype(auto) { return std::forward<decltype(x)>(x) << v << 'c' << true; }); m.Text(std::to_string(v) + "c1"); ops += "numbers "; break; }
      case 3: { const Streamable v{static_cast<int>(r.Below(99))}; Apply(r, b, [&](auto&& x) -> decltype(auto) { return std::forward<decltype(x)>(x) << v; }); m.Text("<" + std::to_string(v.v) + ">"); ops += "value "; break; }
      case 4: {
        if (r.Coin()) { Apply(r, b, [](auto&& x) -> decltype(auto) { return std::forward<decltype(x)>(x).SetAppend(); }); }
        else { Apply(r, b, [](auto&& x) -> decltype(auto) { return std::forward<decltype(x)>(x) << StatusBuilder::Append; }); }
        m.append = true;
        ops += "Append ";
        break;
      }
      case 5: {
        const std::string url = r.Text("ab", 1 + r.Below(3)), data = r.Content(r.Below(30));
        switch (r.Below(4)) {
          case 0: Apply(r, b, [&](auto&& x) -> decltype(auto) { return std::forward<decltype(x)>(x).SetPayload(url, absl::Cord(data)); }); break;
          case 1: Apply(r, b, [&](auto&& x) -> decltype(auto) { return std::forward<decltype(x)>(x).SetPayload(url, std::string_view(data)); }); break;
          case 2: Apply(r, b, [&](auto&& x) -> decltype(auto) { return std::forward<decltype(x)>(x).SetPayload(url, std::string(data)); }); break;
          default: { const absl::Cord c(data); Apply(r, b, [&](auto&& x) -> decltype(auto) { return std::forward<decltype(x)>(x).SetPayload(url, c); }); break; }
        }
        if (!ok) { m.payloads[url] = data; }
        ops += "payload ";
        break;
      }
      case 6: {  // A look at the status in between changes nothing.
        const absl::Status now(std::as_const(b));
        vh::Check(m.Accept(now), "status_between", [&] { return first + ": " + ops + "gives " + Show(now) + " want " + m.Show(); });
        break;
      }
      case 7: if (m.append) { Apply(r, b, [](auto&& x) -> decltype(auto) { return std::forward<decltype(x)>(x).SetPrepend(); }); ops += "SetPrepend(late) "; } break;
      default: Apply(r, b, [](auto&& x) -> decltype(auto) { return std::forward<decltype(x)>(x) << Noted{}; }); if (!ok) { ++want_streamed; } m.Text("N"); ops += "noted "; break;
    }
    vh::Eq("ok", b.ok(), ok, first + " " + ops);
  }
  vh::Case(first + ": " + ops);
  vh::Eq("streamed_once", g_streamed, want_streamed, first + " " + ops);
  const absl::Status one(std::as_const(b));
  const absl::Status two(std::as_const(b));
  const absl::Status three = std::move(b);
  for (const absl::Status* s : {&one, &two, &three}) {
    vh::Check(m.Accept(*s), "status", [&] { return first + ": " + ops + "gives " + Show(*s) + " want " + m.Show(); });
  }
  vh::Eval();
  vh::Count(ok ? "ok_builders" : "error_builders");
  vh::Count("builder_operations", n);
  vh::Distinct(vh::HashAll(first, ops));
}

// --- The macros. Every step notes its evaluation.
struct Value {
  explicit Value(int n) : v(n) {}
  Value(const Value& o) : v(o.v) { ++copies; }
  Value(Value&& o) noexcept : v(std::exchange(o.v, -1)) { ++moves; }
  Value& operator=(const Value& o) { v = o.v; ++copies; return *this; }
  Value& operator=(Value&& o) noexcept { v = std::exchange(o.v, -1); ++moves; return *this; }
  ~Value() = default;
  int v;
  static inline int copies = 0, moves = 0;
};
struct Run {
  std::vector<int> trace;
  int fail_at = -1;
  absl::Status error;
  int next = 0;
  bool Fails() { trace.push_back(next); return next++ == fail_at; }
  absl::Status Stat() { return Fails() ? error : absl::OkStatus(); }
  absl::StatusOr<int> Int() { const int n = next; return Fails() ? absl::StatusOr<int>(error) : absl::StatusOr<int>(n * 10); }
  absl::StatusOr<Value> Val() { const int n = next; if (Fails()) { return error; } return absl::StatusOr<Value>(std::in_place, n * 10); }
  absl::StatusOr<std::unique_ptr<int>> Ptr() { const int n = next; if (Fails()) { return error; } return std::make_unique<int>(n * 10); }
  absl::StatusOr<std::tuple<int, std::string>> Two() { const int n = next; if (Fails()) { return error; } return std::make_tuple(n * 10, std::string(3, 'x')); }
  int& Slot() { trace.push_back(100 + next); return slot; }
  int slot = 0;
};
// 12 steps in every statement position.  Returns the sum of what was assigned.
template <typename R>
R Program(Run& run, std::string_view added, int& sum) {
  MBO_RETURN_IF_ERROR(run.Stat());                                              // 0
  MBO_ASSIGN_OR_RETURN(const int a, run.Int());                                 // 1
  sum += a;
  if (a == 10)
    MBO_RETURN_IF_ERROR(run.Stat());                                            // 2
  else
    sum += 100000;
  if (a != 10)
    sum += 100000;
  else
    MBO_RETURN_IF_ERROR(run.Int()) << added;                                    // 3
  int existing = 7;
  MBO_ASSIGN_OR_RETURN(existing, run.Int());                                    // 4
  sum += existing;
  for (int i = 0; i < 2; ++i) { MBO_RETURN_IF_ERROR(run.Ptr()).SetPrepend() << added; }  // 5, 6
  const auto lambda = [&]() -> absl::Status {
    MBO_ASSIGN_OR_RETURN(auto p, run.Ptr());                                    // 7
    sum += *p;
    return absl::OkStatus();
  };
  MBO_RETURN_IF_ERROR(lambda()).SetPrepend() << added << StatusBuilder::Append << added;
  switch (a) {
    case 10: MBO_RETURN_IF_ERROR(run.Stat()).SetPayload("url", "data"); break;  // 8
    default: sum += 100000;
  }
  MBO_MOVE_TO_OR_RETURN(run.Two(), auto [x, y]);                                // 9
  sum += x + static_cast<int>(y.size());
  {
    absl::Status var = run.Stat();                                              // 10
    MBO_RETURN_IF_ERROR(var);
    MBO_RETURN_IF_ERROR(std::move(var));
  }
  MBO_ASSIGN_OR_RETURN(run.Slot(), run.Int());                                  // 11
  sum += run.slot;
  if constexpr (std::is_same_v<R, absl::Status>) { return absl::OkStatus(); } else { return std::make_unique<int>(sum); }
}
absl::Status StatusOf(const absl::Status& s) { return s; }
template <typename T> absl::Status StatusOf(const absl::StatusOr<T>& s) { return s.status(); }

template <typename R>
void Programs(vh::Rng& r, const char* name) {
  Run run;
  run.fail_at = static_cast<int>(r.Below(13));
  run.error = RandomError(r);
  const std::string added = r.Text("+ab", r.Below(5));
  int sum = 0;
  const std::string ctx = std::string(name) + " failing step " + std::to_string(run.fail_at) + " with " + Show(run.error);
  vh::Case(ctx);
  R result = Program<R>(run, added, sum);
  const absl::Status got = StatusOf(result);
  std::vector<int> trace;
  for (int i = 0; i <= std::min(run.fail_at, 11); ++i) { trace.push_back(i); }
  if (run.fail_at > 11) { trace.push_back(112); }
  vh::Check(run.trace == trace, "trace", [&] { std::string s = ctx + " evaluated"; for (const int t : run.trace) { s += " " + std::to_string(t); } return s; });
  int want_sum = 0;
  const int f = run.fail_at;
  if (f > 1) { want_sum += 10; }
  if (f > 4) { want_sum += 40; }
  if (f > 7) { want_sum += 70; }
  if (f > 9) { want_sum += 93; }
  if (f > 11) { want_sum += 110; }
  vh::Eq("assigned", sum, want_sum, ctx);
  if (f > 11) {
    vh::Check(got.ok(), "ok_result", ctx);
    if constexpr (!std::is_same_v<R, absl::Status>) { vh::Check(got.ok() && **result == sum, "ok_value", ctx); }
    vh::Count("programs_completed");
  } else {
    Model m{run.error.code(), std::string(run.error.message())};
    m.payloads = PayloadsOf(run.error);
    if (f == 3) { m.before = added; }
    if (f == 5 || f == 6) { m.before = added; m.prepend = true; }
    if (f == 7) { m.before = m.after = added; m.prepend = m.append = true; }
    if (f == 8) { m.payloads["url"] = "data"; }
    vh::Check(m.Accept(got), "returned", [&] { return ctx + " returns " + Show(got) + " want " + m.Show(); });
    vh::Count("programs_stopped");
  }
  vh::Eval();
  vh::Distinct(vh::HashAll(ctx, added));
}
absl::Status Moves(Run& run, absl::StatusOr<Value>& lvalue) {
  Value::copies = Value::moves = 0;
  MBO_ASSIGN_OR_RETURN(Value a, run.Val());
  vh::Check(Value::copies == 0 && Value::moves == 1, "moved_once", "initialising from a temporary takes " + std::to_string(Value::copies) + " copies and " + std::to_string(Value::moves) + " moves");
  MBO_ASSIGN_OR_RETURN(a, run.Val());
  vh::Check(Value::copies == 0 && Value::moves == 2 && a.v == 10, "moved_once", "assigning from a temporary takes " + std::to_string(Value::copies) + " copies and " + std::to_string(Value::moves) + " moves");
  Value::copies = Value::moves = 0;
  MBO_ASSIGN_OR_RETURN(const Value c, lvalue);
  vh::Check(Value::copies == 1 && Value::moves == 1 && c.v == 77 && lvalue->v == 77, "lvalue_copied", "initialising from an lvalue takes " + std::to_string(Value::copies) + " copies and " + std::to_string(Value::moves) + " moves");
  Value::copies = Value::moves = 0;
  MBO_RETURN_IF_ERROR(lvalue);
  vh::Check(Value::moves == 0 && lvalue->v == 77, "lvalue_kept", "MBO_RETURN_IF_ERROR moves out of an lvalue");
  MBO_ASSIGN_OR_RETURN(const Value d, std::move(lvalue));
  vh::Check(d.v == 77, "moved_from_lvalue", "the value is lost");
  return absl::OkStatus();
}
struct Convertible {
  absl::Status s;
  operator absl::Status() const { return s; }  // NOLINT
};
}  // namespace

void VhMain() {
  vh::Section("builder", 20000, 2000000, [](vh::Rng& r, std::uint64_t) { Builder(r); });
  vh::Section("macros", 4000, 400000, [](vh::Rng& r, std::uint64_t i) {
    if (i % 2 == 0) { Programs<absl::Status>(r, "Status"); } else { Programs<absl::StatusOr<std::unique_ptr<int>>>(r, "StatusOr"); }
  });
  vh::Section("moves", 10, 100, [](vh::Rng& r, std::uint64_t i) {
    Run run;
    run.error = RandomError(r);
    run.fail_at = static_cast<int>(i % 3);
    absl::StatusOr<Value> lvalue(std::in_place, 77);
    const absl::Status s = Moves(run, lvalue);
    vh::Check(i % 3 == 2 ? s.ok() : s == run.error, "moves_result", Show(s));
    if (i % 3 == 2) {
      absl::StatusOr<Value> bad = run.error;
      Run again;
      again.fail_at = 99;
      vh::Check(Moves(again, bad) == run.error, "lvalue_error", Show(run.error));
    }
    vh::Eval();
  });
  vh::Section("get_status", 2000, 100000, [](vh::Rng& r, std::uint64_t) {
    const absl::Status e = r.Chance(1, 4) ? absl::OkStatus() : RandomError(r);
    using mbo::status::GetStatus;
    vh::Check(GetStatus(e) == e && GetStatus(absl::Status(e)) == e, "get_status", Show(e));
    absl::Status lv = e;
    vh::Check(GetStatus(lv) == e && lv == e && GetStatus(std::move(lv)) == e, "get_status_lvalue", Show(e));
    absl::StatusOr<std::string> so = e.ok() ? absl::StatusOr<std::string>("x") : absl::StatusOr<std::string>(e);
    vh::Check(GetStatus(so) == e && GetStatus(std::as_const(so)) == e && so.ok() == e.ok() && (!so.ok() || *so == "x"), "get_status_or", Show(e));
    vh::Check(GetStatus(std::move(so)) == e, "get_status_or_moved", Show(e));
    vh::Check(GetStatus(Convertible{e}) == e && GetStatus(StatusBuilder(e)) == e, "get_status_converted", Show(e));
    vh::Eval();
  });
}
