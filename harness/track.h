#ifndef VERIF_TRACK_H_
#define VERIF_TRACK_H_
// Objects that report their own lifetime: every construction, destruction, copy, move and use is checked against a
// registry of the objects alive, keyed by address.
#include <compare>
#include <cstdint>
#include <string>
#include <unordered_map>
#include <utility>

#include "vh.h"

namespace trk {

struct Registry {
  std::unordered_map<const void*, std::uint64_t> live;
  std::uint64_t constructed = 0, destroyed = 0, copies = 0, moves = 0, assigns = 0, next = 0;
  std::string error;  // The first one.
  void Error(const std::string& e) { if (error.empty()) { error = e; } }
  void Born(const void* p) {
    ++constructed;
    if (!live.emplace(p, ++next).second) { Error("constructed over a live object"); }
  }
  bool Dead(const void* p) {
    ++destroyed;
    if (live.erase(p) == 0) { Error("destroyed an object that is not alive"); return false; }
    return true;
  }
  void Use(const void* p, const char* what) { if (!live.contains(p)) { Error(std::string(what) + " an object that is not alive"); } }
};
inline Registry& R() { static Registry r; return r; }
// Starts a case: nothing is alive.
inline void Reset() { R().live.clear(); R().error.clear(); }
// True (and nothing reported) if all that was created is gone and nothing went wrong.
inline bool Done(const std::string& key, const std::string& ctx) {
  bool ok = true;
  if (!R().error.empty()) { vh::Fail(key + ":lifetime", R().error + "; " + ctx); ok = false; }
  else if (!R().live.empty()) { vh::Fail(key + ":leak", std::to_string(R().live.size()) + " objects were never destroyed; " + ctx); ok = false; }
  Reset();
  return ok;
}
inline bool Clean(const std::string& key, const std::string& ctx) {
  if (R().error.empty()) { return true; }
  vh::Fail(key + ":lifetime", R().error + "; " + ctx);
  R().error.clear();
  return false;
}
inline void Report() {
  vh::Count("objects_constructed", R().constructed); vh::Count("objects_destroyed", R().destroyed);
  vh::Count("objects_copied", R().copies); vh::Count("objects_moved", R().moves); vh::Count("objects_assigned", R().assigns);
}

// kCopy: copyable; kAssign: assignable. The value lives on the heap as well, so that a sanitizer sees what the registry sees.
template <bool kCopy = true, bool kAssign = true>
class Obj {
 public:
  static constexpr int kMoved = -1000001;
  Obj() : Obj(0) {}
  Obj(int v) : p_(new int(v)) { R().Born(this); }  // NOLINT
  ~Obj() { if (R().Dead(this)) { delete p_; } p_ = reinterpret_cast<int*>(0x5a5a5a5a5a5a5a50ULL); }
  Obj(const Obj& o) requires(kCopy) : p_(new int(o.get("copied"))) { ++R().copies; R().Born(this); }
  Obj(Obj&& o) noexcept : p_(new int(o.get("moved from"))) { ++R().moves; if (&o != this && R().live.contains(&o)) { *o.p_ = kMoved; } R().Born(this); }
  Obj& operator=(const Obj& o) requires(kCopy && kAssign) { R().Use(this, "assigned to"); const int v = o.get("assigned from"); ++R().assigns; if (R().live.contains(this)) { *p_ = v; } return *this; }
  Obj& operator=(Obj&& o) noexcept requires(kAssign) { R().Use(this, "assigned to"); const int v = o.get("move-assigned from"); ++R().assigns; if (&o != this && R().live.contains(this) && R().live.contains(&o)) { *p_ = v; *o.p_ = kMoved; } return *this; }
  int get(const char* what = "read") const { R().Use(this, what); return R().live.contains(this) ? *p_ : -1000002; }
  int v() const { return get(); }
  friend bool operator==(const Obj& a, const Obj& b) { return a.get("compared") == b.get("compared"); }
  friend std::strong_ordering operator<=>(const Obj& a, const Obj& b) { return a.get("compared") <=> b.get("compared"); }

 private:
  int* p_;
};
using Full = Obj<true, true>;
using MoveOnly = Obj<false, true>;
using Const = Obj<true, false>;      // Copy- and move-constructible, not assignable.
using MoveConst = Obj<false, false>;  // Only move-constructible.

}  // namespace trk
#endif
