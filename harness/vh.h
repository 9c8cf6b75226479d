#ifndef VERIF_VH_H_
#define VERIF_VH_H_
// The common part of every harness: seeded case generation, counters of what was observed, reporting, a CPU-time watchdog
// and helpers that run a piece of code in a child process.  The protocol on stdout is read by /verif/run.py.
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <array>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <type_traits>
#include <unordered_set>
#include <utility>
#include <vector>

namespace vh {

inline std::uint64_t Mix(std::uint64_t x) {
  x += 0x9E3779B97F4A7C15ULL;
  x = (x ^ (x >> 30U)) * 0xBF58476D1CE4E5B9ULL;
  x = (x ^ (x >> 27U)) * 0x94D049BB133111EBULL;
  return x ^ (x >> 31U);
}
inline std::uint64_t HashOf(std::string_view s, std::uint64_t h = 0x1234567) {
  for (const char c : s) { h = Mix(h ^ static_cast<unsigned char>(c)); }
  return Mix(h ^ s.size());
}
template <typename... A>
inline std::uint64_t HashAll(const A&... a) {
  std::uint64_t h = 77;
  auto one = [&h](const auto& v) {
    if constexpr (std::is_convertible_v<decltype(v), std::string_view>) { h = HashOf(v, h); } else { h = Mix(h ^ static_cast<std::uint64_t>(v)); }
  };
  (one(a), ...);
  return h;
}

class Rng {
 public:
  explicit Rng(std::uint64_t s) : s_(s) {}
  std::uint64_t Next() { return s_ += 0x9E3779B97F4A7C15ULL, Mix(s_); }
  // In [0, n).
  std::uint64_t Below(std::uint64_t n) { return n == 0 ? 0 : Next() % n; }
  std::int64_t Range(std::int64_t lo, std::int64_t hi) { return lo + static_cast<std::int64_t>(Below(static_cast<std::uint64_t>(hi - lo) + 1)); }
  bool Chance(unsigned num, unsigned den) { return Below(den) < num; }
  bool Coin() { return (Next() & 1U) != 0; }
  std::string Bytes(std::size_t n) {
    std::string r(n, '\0');
    for (char& c : r) { c = static_cast<char>(Next()); }
    return r;
  }
  std::string Text(std::string_view alphabet, std::size_t n) {
    std::string r(n, '\0');
    for (char& c : r) { c = alphabet[Below(alphabet.size())]; }
    return r;
  }
  template <typename C>
  auto& Pick(C& c) { return c[Below(std::size(c))]; }
  template <typename T>
  T Of(std::initializer_list<T> l) { return *(l.begin() + Below(l.size())); }
  // A length, favouring the neighbourhood of multiples of `block` and small values.
  std::size_t Len(std::size_t max, std::size_t block = 64) {
    switch (Below(4)) {
      case 0: return Below(std::min<std::size_t>(max, 20) + 1);
      case 1: {
        const std::size_t k = Below(max / block + 1) * block + Below(5);
        return std::min(max, k >= 2 ? k - 2 : k);
      }
      case 2: return Below(std::min<std::size_t>(max, 4 * block) + 1);
      default: return Below(max + 1);
    }
  }
  std::size_t Len(std::size_t max, std::initializer_list<std::size_t> blocks) { return Len(max, Of(blocks)); }
  // Contents: random, zero, ones, sparse, text or periodic.
  std::string Content(std::size_t n) {
    switch (Below(6)) {
      case 0: return std::string(n, '\0');
      case 1: return std::string(n, '\xFF');
      case 2: { std::string r(n, '\0'); if (n != 0) { r[Below(n)] = static_cast<char>(1U << Below(8)); } return r; }
      case 3: return Text("abcXYZ 019\n", n);
      case 4: { std::string r(n, '\0'); const std::size_t p = 1 + Below(9); for (std::size_t i = 0; i < n; ++i) { r[i] = static_cast<char>(i % p * 37 + 1); } return r; }
      default: return Bytes(n);
    }
  }
  template <typename C>
  void Shuffle(C& c) { for (std::size_t i = c.size(); i > 1; --i) { std::swap(c[i - 1], c[Below(i)]); } }

 private:
  std::uint64_t s_;
};

inline std::string Json(std::string_view s) {
  std::string r = "\"";
  for (const char ch : s) {
    const unsigned char c = static_cast<unsigned char>(ch);
    if (c == '"' || c == '\\') { r += '\\'; r += ch; }
    else if (c < 0x20 || c >= 0x7F) { char b[8]; std::snprintf(b, sizeof(b), "\\u%04x", c); r += b; }
    else { r += ch; }
  }
  return r + '"';
}
inline std::string Hex(std::string_view s) {
  static const char* d = "0123456789abcdef";
  std::string r;
  for (const char ch : s) { r += d[static_cast<unsigned char>(ch) >> 4U]; r += d[static_cast<unsigned char>(ch) & 15U]; }
  return r;
}

struct Env {
  std::uint64_t seed = 1;
  bool thorough = false;
  unsigned shard = 0, shards = 1;
  double budget = 60;
  std::string only;            // "<section>:<iteration>": just this one.
  std::string scratch = "/tmp";
  std::string out;
};
inline Env& E() { static Env e; return e; }
inline bool Thorough() { return E().thorough; }

struct State {
  std::uint64_t evals = 0;
  std::unordered_set<std::uint64_t> distinct;
  std::map<std::string, std::uint64_t> counters;
  std::vector<std::string> samples;
  std::map<std::string, unsigned> fails;
  unsigned nfails = 0;
  std::string section;
  std::uint64_t iteration = 0;
  volatile std::uint64_t progress = 0;
  char* case_mem = nullptr;
  bool child = false;
  std::chrono::steady_clock::time_point start = std::chrono::steady_clock::now();
};
inline State& S() { static State s; return s; }

inline constexpr std::size_t kCaseMem = 1U << 16U;

// Records the case about to run, so that a crash can be reported with it.
inline void Case(std::string_view text) {
  ++S().progress;
  if (S().case_mem == nullptr) { return; }
  const std::size_t n = std::min(text.size(), kCaseMem - 600);
  const int k = std::snprintf(S().case_mem, 500, "%s:%llu ", S().section.c_str(), static_cast<unsigned long long>(S().iteration));
  std::memcpy(S().case_mem + k, text.data(), n);
  S().case_mem[static_cast<std::size_t>(k) + n] = 0;
}
inline void Eval(std::uint64_t n = 1) { S().evals += n; ++S().progress; }
inline void Distinct(std::uint64_t h) { if (S().distinct.size() < 400000) { S().distinct.insert(h); } }
inline void Count(const std::string& name, std::uint64_t n = 1) { S().counters[name] += n; }
inline void Sample(const std::string& json) { if (S().samples.size() < 3) { S().samples.push_back(json); } }
inline void SampleText(std::string_view text) { Sample(Json(text.substr(0, 300))); }

// `key` classifies the violation (known findings are matched on it), `detail` says what was observed.
inline void Fail(const std::string& key, const std::string& detail) {
  ++S().nfails;
  if (++S().fails[key] > 3 || S().fails.size() > 40) { return; }
  std::printf("@FAIL %s\t%s\t%llu\t%s\n", key.c_str(), S().section.c_str(), static_cast<unsigned long long>(S().iteration), Json(detail.substr(0, 6000)).c_str());
  std::fflush(stdout);
}
template <typename D>
bool Check(bool ok, std::string_view key, const D& detail) {
  if (!ok) { if constexpr (std::is_invocable_v<const D&>) { Fail(std::string(key), std::string(detail())); } else { Fail(std::string(key), std::string(detail)); } }
  return ok;
}
template <typename T>
std::string Show(const T& v) {
  if constexpr (std::is_same_v<T, bool>) { return v ? "true" : "false"; }
  else if constexpr (std::is_convertible_v<const T&, std::string_view>) { return Json(std::string_view(v)); }
  else if constexpr (std::is_enum_v<T>) { return std::to_string(static_cast<long long>(v)); }
  else if constexpr (requires(std::ostream& os) { os << v; }) { std::ostringstream os; os << v; return os.str(); }
  else { return "<value>"; }
}
template <typename A, typename B>
bool Eq(std::string_view key, const A& got, const B& want, std::string_view ctx = "") {
  if (got == want) { return true; }
  Fail(std::string(key), std::string(ctx) + " got=" + Show(got) + " want=" + Show(want));
  return false;
}

inline double Elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - S().start).count(); }
inline bool TimeLeft() { return Elapsed() < E().budget; }

// Runs `fn(rng, i)` for i in [0, n), split over the shards. Each case depends on (seed, section, i) only.
template <typename F>
void Section(const std::string& name, std::uint64_t quick, std::uint64_t thorough, F&& fn) {
  const std::uint64_t n = Thorough() ? thorough : quick;
  std::uint64_t first = E().shard, step = E().shards;
  if (!E().only.empty()) {
    const std::size_t c = E().only.rfind(':');
    if (E().only.substr(0, c) != name) { return; }
    first = std::strtoull(E().only.c_str() + c + 1, nullptr, 10);
    step = ~0ULL - first;
  }
  S().section = name;
  const std::uint64_t base = HashAll(E().seed, name);
  for (std::uint64_t i = first; i < n || !E().only.empty(); i += step) {
    S().iteration = i;
    ++S().progress;
    Rng r(Mix(base ^ Mix(i)));
    fn(r, i);
    if (!E().only.empty()) { break; }
    if (!TimeLeft()) { Count("truncated_sections"); break; }
  }
}
// Runs `fn` in exactly one shard.
template <typename F>
void Once(const std::string& name, F&& fn) {
  if (E().only.empty() ? HashOf(name) % E().shards != E().shard : E().only != name + ":0") { return; }
  S().section = name;
  S().iteration = 0;
  ++S().progress;
  Rng r(HashAll(E().seed, name));
  fn(r);
}

inline void OnTick(int) {
  static std::uint64_t last = ~0ULL;
  static int same = 0;
  const std::uint64_t p = S().progress;
  same = p == last ? same + 1 : 0;
  last = p;
  if (same >= 40) {  // No progress in 40 s of CPU time.
    static const char kMsg[] = "\n@HANG\n";
    if (write(1, kMsg, sizeof(kMsg) - 1) < 0) {}
    _exit(78);
  }
}
inline void StartWatchdog() {
  struct sigaction sa {};
  sa.sa_handler = &OnTick;
  sa.sa_flags = SA_RESTART;
  sigaction(SIGVTALRM, &sa, nullptr);
  const struct itimerval it {{1, 0}, {1, 0}};
  setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

// What became of a piece of code run in a child process.
struct ChildResult {
  bool exited = false;  // Ended by itself (with `code`), otherwise by signal `sig`.
  int code = 0, sig = 0;
  std::string out, err;
  bool timed_out = false;
  bool Died() const { return !timed_out && (!exited || (code != 0 && !Went())); }
  // Stopped by the code under test, and not only by an assertion of the standard library this build turns on.
  bool Stopped() const { return Died() && !Sanitizer() && err.find(": Assertion '") == std::string::npos; }
  bool Went() const { return exited && code >= 40 && code < 50; }  // The codes by which a child tells that nothing stopped it.
  bool Sanitizer() const { return err.find("Sanitizer") != std::string::npos || err.find("runtime error:") != std::string::npos; }
};
template <typename F>
ChildResult RunChild(F&& fn, double timeout = 60) {
  ChildResult r;
  std::fflush(stdout);
  std::fflush(stderr);
  char to[] = "/tmp/vh_out_XXXXXX", te[] = "/tmp/vh_err_XXXXXX";
  const int fo = mkstemp(to), fe = mkstemp(te);
  unlink(to);
  unlink(te);
  const pid_t pid = fork();
  if (pid == 0) {
    S().child = true;
    dup2(fo, 1);
    dup2(fe, 2);
    const int nul = open("/dev/null", O_RDONLY);
    dup2(nul, 0);
    fn();
    std::fflush(stdout);
    std::fflush(stderr);
    _exit(0);
  }
  const auto t0 = std::chrono::steady_clock::now();
  int st = 0;
  for (unsigned spin = 0;; ++spin) {
    const pid_t w = waitpid(pid, &st, WNOHANG);
    if (w == pid) { break; }
    if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > timeout) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      r.timed_out = true;
      break;
    }
    usleep(spin < 50 ? 200 : 2000);
  }
  r.exited = WIFEXITED(st);
  r.code = WIFEXITED(st) ? WEXITSTATUS(st) : 0;
  r.sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
  auto slurp = [](int fd) {
    std::string s;
    char b[4096];
    lseek(fd, 0, SEEK_SET);
    for (ssize_t k = 0; (k = read(fd, b, sizeof(b))) > 0 && s.size() < 1000000;) { s.append(b, static_cast<std::size_t>(k)); }
    close(fd);
    return s;
  };
  r.out = slurp(fo);
  r.err = slurp(fe);
  ++S().progress;
  return r;
}

inline void Finish() {
  for (const auto& [k, v] : S().counters) { std::printf("@COUNT %s\t%llu\n", k.c_str(), static_cast<unsigned long long>(v)); }
  for (const auto& s : S().samples) { std::printf("@SAMPLE %s\n", s.c_str()); }
  if (!E().out.empty()) {
    if (std::FILE* f = std::fopen(E().out.c_str(), "wb")) {
      for (const std::uint64_t h : S().distinct) { std::fwrite(&h, sizeof(h), 1, f); }
      std::fclose(f);
    }
  }
  std::printf("@DONE %llu %llu %u\n", static_cast<unsigned long long>(S().evals), static_cast<unsigned long long>(S().distinct.size()), S().nfails);
  std::fflush(stdout);
}

inline void Init() {
  auto get = [](const char* n, const char* d) { const char* v = std::getenv(n); return std::string(v == nullptr ? d : v); };
  E().seed = std::strtoull(get("VERIF_SEED", "1").c_str(), nullptr, 10);
  E().thorough = get("VERIF_TIER", "quick") == "thorough";
  E().shard = static_cast<unsigned>(std::atoi(get("VH_SHARD", "0").c_str()));
  E().shards = static_cast<unsigned>(std::atoi(get("VH_SHARDS", "1").c_str()));
  E().budget = std::atof(get("VH_BUDGET", "60").c_str());
  E().only = get("VH_ONLY", "");
  E().scratch = get("VH_SCRATCH", "/tmp");
  E().out = get("VH_OUT", "");
  const std::string cf = get("VH_CASE", "");
  if (!cf.empty()) {
    const int fd = open(cf.c_str(), O_RDWR | O_CREAT, 0600);
    if (fd >= 0 && ftruncate(fd, kCaseMem) == 0) {
      void* p = mmap(nullptr, kCaseMem, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (p != MAP_FAILED) { S().case_mem = static_cast<char*>(p); }
    }
  }
  StartWatchdog();
}
}  // namespace vh

void VhMain();
#ifndef VH_NO_MAIN
int main() {
  vh::Init();
  VhMain();
  vh::Finish();
  return 0;
}
#endif
#endif
