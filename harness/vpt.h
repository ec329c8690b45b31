// Small property-based testing engine used by all checks in /verif.
//
// A case is a function of a sequence of bounded unsigned draws ("choices").
// Choices come from a PRNG seeded by (VERIF_SEED, property name, case index),
// or, on replay/shrinking, from a stored list.  Shrinking edits the list
// (delete, zero, minimise), so every generator shrinks and every failure
// replays from a plain list of numbers.  Each property runs in forked workers:
// a crash, sanitizer report or CPU-time hang of the code under test is a
// failing case like any other and is shrunk in isolated children.
#ifndef VPT_H_
#define VPT_H_
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>

#include <algorithm>
#include <chrono>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <unordered_set>
#include <utility>
#include <vector>

namespace vpt {

struct Discard {};
struct Fail {
  std::string msg;
};

inline uint64_t Mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
inline uint64_t HashStr(const std::string& s, uint64_t h = 1469598103934665603ull) {
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return Mix(h);
}

inline uint64_t CaseSeed(uint64_t seed, const std::string& name, uint64_t idx) {
  return Mix(Mix(seed * 0x9e3779b97f4a7c15ull + HashStr(name)) + idx);
}

template <typename T>
std::string Show(const T& v) {
  std::ostringstream o;
  o.precision(17);
  o << v;
  return o.str();
}
inline std::string Show(const std::string& v) {
  std::ostringstream o;
  o << '"';
  for (unsigned char c : v) {
    if (c == '"' || c == '\\')
      o << '\\' << c;
    else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\x%02x", c);
      o << b;
    } else
      o << c;
  }
  o << '"';
  return o.str();
}
inline std::string Show(const char* v) { return Show(std::string(v)); }
inline std::string Show(bool b) { return b ? "true" : "false"; }
template <typename A, typename B>
std::string Show(const std::pair<A, B>& v);
template <typename T>
std::string Show(const std::vector<T>& v) {
  std::ostringstream o;
  o << '[';
  size_t n = 0;
  for (const auto& e : v) {
    if (n) o << ", ";
    if (n >= 64) {
      o << "... (" << v.size() << " elements)";
      break;
    }
    o << Show(e);
    ++n;
  }
  o << ']';
  return o.str();
}
inline std::string Show(const std::vector<bool>& v) {
  std::string o;
  for (bool b : v) o += b ? '1' : '0';
  return o;
}
template <typename A, typename B>
std::string Show(const std::pair<A, B>& v) {
  return "(" + Show(v.first) + ", " + Show(v.second) + ")";
}
template <typename K, typename V, typename C>
std::string Show(const std::map<K, V, C>& m) {
  std::string o = "{";
  for (const auto& kv : m) o += Show(kv.first) + ": " + Show(kv.second) + ", ";
  return o + "}";
}

// Choices of the running case, in shared memory so that the parent still has
// them when an isolated child dies.
constexpr size_t kMaxChoices = 1 << 16;
struct Shared {
  uint64_t n;
  uint64_t v[kMaxChoices];
  char msg[8192];
  uint64_t status;  // 0 running, 1 pass, 2 fail, 3 discard
};

class Src {
 public:
  // Random generation.
  explicit Src(uint64_t seed, Shared* sh = nullptr) : state_(seed), sh_(sh) {
    if (sh_) sh_->n = 0;
  }
  // Replay.
  Src(std::vector<uint64_t> prefix, Shared* sh)
      : replay_(true), prefix_(std::move(prefix)), sh_(sh) {
    if (sh_) sh_->n = 0;
  }

  // Uniform in [0, max]; shrinks towards 0.
  uint64_t draw(uint64_t max) {
    uint64_t v;
    if (replay_) {
      v = rec_.size() < prefix_.size() ? prefix_[rec_.size()] : 0;
      if (v > max) v = max;
    } else if (max == ~0ull) {
      v = next();
    } else {
      v = static_cast<uint64_t>(
          (static_cast<unsigned __int128>(next()) * (max + 1)) >> 64);
    }
    if (rec_.size() >= kMaxChoices - 1) throw Discard{};
    rec_.push_back(v);
    if (sh_) {
      sh_->v[rec_.size() - 1] = v;
      sh_->n = rec_.size();
    }
    return v;
  }
  // Integer in [lo, hi]; shrinks towards lo.
  int64_t i(int64_t lo, int64_t hi) {
    return lo + static_cast<int64_t>(draw(static_cast<uint64_t>(hi - lo)));
  }
  size_t n(size_t lo, size_t hi) { return lo + draw(hi - lo); }
  // Integer in [0, below).
  size_t n(size_t below) { return below <= 1 ? 0 : draw(below - 1); }
  // true with probability num/den; shrinks towards false.
  bool chance(unsigned num, unsigned den) {
    return draw(den - 1) >= den - num;
  }
  bool b() { return draw(1) == 1; }
  template <typename T>
  const T& pick(const std::vector<T>& v) {
    return v[draw(v.size() - 1)];
  }
  template <typename T>
  T pick(std::initializer_list<T> v) {
    return *(v.begin() + draw(v.size() - 1));
  }
  // Uniform real in [lo, hi]; shrinks to lo. Coarse grid first so that round
  // values occur.
  double real(double lo, double hi) {
    if (draw(3) == 0) return lo + (hi - lo) * (draw(8) / 8.0);
    return lo + (hi - lo) * (draw((1ull << 40)) / double(1ull << 40));
  }
  // Symmetric real, |x| <= m, shrinks to 0.
  double sym(double m) {
    uint64_t k = draw(9);
    if (k == 0) return 0.0;
    double a = k < 3 ? m * (draw(8) / 8.0) : m * (draw(1ull << 40) / double(1ull << 40));
    return b() ? -a : a;
  }
  // Log-uniform positive.
  double logu(double lo, double hi) {
    return lo * std::pow(hi / lo, draw(1ull << 32) / double(1ull << 32));
  }
  std::complex<double> cplx(double m) {
    double re = sym(m);
    return {re, sym(m)};
  }
  std::string str(const std::string& alphabet, size_t lo, size_t hi) {
    size_t len = n(lo, hi);
    std::string r;
    for (size_t k = 0; k < len; ++k) r += alphabet[draw(alphabet.size() - 1)];
    return r;
  }
  std::string str(const std::string& alphabet, size_t hi) { return str(alphabet, 0, hi); }
  template <typename T>
  void shuffle(std::vector<T>& v) {
    for (size_t k = v.size(); k > 1; --k) std::swap(v[k - 1], v[k - 1 - draw(k - 1)]);
  }

  template <typename T>
  void note(const char* name, const T& v) {
    if (keep_notes) notes_ += std::string(name) + "=" + Show(v) + "; ";
  }
  template <typename T>
  void note(const T& v) {
    note("text", v);
  }
  void nontrivial(bool yes) {
    if (yes) nontrivial_ = true;
  }
  // The case exercises what the property is about. `cls` is a label for the
  // distribution report.
  void nontrivial() { nontrivial_ = true; }
  void nontrivial(const char* cls) {
    nontrivial_ = true;
    classes_.insert(cls);
  }
  void label(const char* cls) { classes_.insert(cls); }

  const std::vector<uint64_t>& record() const { return rec_; }
  const std::string& notes() const { return notes_; }
  bool is_nontrivial() const { return nontrivial_; }
  const std::set<std::string>& classes() const { return classes_; }
  bool keep_notes = true;

 private:
  uint64_t next() {
    state_ += 0x9e3779b97f4a7c15ull;
    uint64_t z = state_;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  bool replay_ = false;
  std::vector<uint64_t> prefix_;
  uint64_t state_ = 0;
  std::vector<uint64_t> rec_;
  Shared* sh_;
  std::string notes_;
  bool nontrivial_ = false;
  std::set<std::string> classes_;
};

using Fn = std::function<void(Src&)>;
struct Prop {
  std::string name;
  uint64_t quick;
  uint64_t thorough;
  Fn fn;
};
inline std::vector<Prop>& Registry() {
  static std::vector<Prop> r;
  return r;
}
struct Reg {
  Reg(const char* name, uint64_t quick, uint64_t thorough, Fn fn) {
    Registry().push_back({name, quick, thorough, std::move(fn)});
  }
};
#define VPT_CAT2(a, b) a##b
#define VPT_CAT(a, b) VPT_CAT2(a, b)
// PROP("P01.name", quick_cases, thorough_cases) { ... use s ... }
#define PROP(name, quick, thorough)                                         \
  static void VPT_CAT(vpt_body_, __LINE__)(vpt::Src & s);                   \
  static vpt::Reg VPT_CAT(vpt_reg_, __LINE__)(name, quick, thorough,        \
                                              VPT_CAT(vpt_body_, __LINE__)); \
  static void VPT_CAT(vpt_body_, __LINE__)([[maybe_unused]] vpt::Src & s)

#define CHECK(cond, ...)                                                  \
  do {                                                                    \
    if (!(cond))                                                          \
      throw vpt::Fail{std::string(#cond " at line ") +                    \
                      std::to_string(__LINE__) + ": " + vpt::Join(__VA_ARGS__)}; \
  } while (0)
inline std::string Join() { return ""; }
template <typename T, typename... R>
std::string Join(const T& t, const R&... r) {
  std::string a;
  if constexpr (std::is_convertible_v<T, std::string>)
    a = std::string(t);
  else
    a = Show(t);
  std::string rest = Join(r...);
  return rest.empty() ? a : a + " " + rest;
}
#define CHECK_EQ(a, b, ...)                                               \
  do {                                                                    \
    const auto vpt_a = (a);                                               \
    const auto vpt_b = (b);                                               \
    if (!(vpt_a == vpt_b))                                                \
      throw vpt::Fail{std::string(#a " == " #b " at line ") +             \
                      std::to_string(__LINE__) + ": got " + vpt::Show(vpt_a) + \
                      ", expected " + vpt::Show(vpt_b) + " " +            \
                      vpt::Join(__VA_ARGS__)};                            \
  } while (0)
// |a - b| <= tol
#define CHECK_NEAR(a, b, tol, ...)                                        \
  do {                                                                    \
    const auto vpt_a = (a);                                               \
    const auto vpt_b = (b);                                               \
    if (!(std::abs(vpt_a - vpt_b) <= (tol)))                              \
      throw vpt::Fail{std::string(#a " ~ " #b " at line ") +              \
                      std::to_string(__LINE__) + ": got " + vpt::Show(vpt_a) + \
                      ", expected " + vpt::Show(vpt_b) + " tol " +        \
                      vpt::Show(tol) + " " + vpt::Join(__VA_ARGS__)};     \
  } while (0)

// Runs f, which must throw an exception derived from std::exception.
template <typename F>
bool Throws(F&& f) {
  try {
    f();
  } catch (const std::exception&) {
    return true;
  }
  return false;
}

enum Status { kPass = 1, kFail = 2, kDiscard = 3 };

inline Status RunOne(const Prop& p, Src& s, std::string* msg) {
  try {
    p.fn(s);
    return kPass;
  } catch (const Discard&) {
    return kDiscard;
  } catch (const Fail& f) {
    *msg = f.msg;
    return kFail;
  } catch (const std::exception& e) {
    *msg = std::string("unexpected exception ") + typeid(e).name() + ": " + e.what();
    return kFail;
  } catch (...) {
    *msg = "unexpected exception of unknown type";
    return kFail;
  }
}

inline void ArmCpuWatchdog(int seconds) {
  itimerval t{};
  t.it_value.tv_sec = seconds;
  setitimer(ITIMER_PROF, &t, nullptr);
}
constexpr int kCaseCpuSeconds = 30;

inline void Silence() {
  int fd = open("/dev/null", O_WRONLY);
  dup2(fd, 1);
  if (!getenv("VPT_STDERR")) dup2(fd, 2);
}

// Executes one choice list in a child process; survives crashes.
inline Status RunIsolated(const Prop& p, const std::vector<uint64_t>* choices,
                          uint64_t seed, Shared* sh, std::string* msg) {
  sh->status = 0;
  sh->n = 0;
  sh->msg[0] = 0;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    Silence();
    ArmCpuWatchdog(kCaseCpuSeconds);
    std::string m;
    Status st;
    if (choices) {
      Src s(*choices, sh);
      st = RunOne(p, s, &m);
      if (st == kFail) m += " || case: " + s.notes();
    } else {
      Src s(seed, sh);
      st = RunOne(p, s, &m);
      if (st == kFail) m += " || case: " + s.notes();
    }
    snprintf(sh->msg, sizeof sh->msg, "%s", m.c_str());
    sh->status = st;
    _exit(0);
  }
  int ws = 0;
  while (waitpid(pid, &ws, 0) < 0 && errno == EINTR) {
  }
  if (sh->status == 0) {
    if (WIFSIGNALED(ws) && WTERMSIG(ws) == SIGKILL) return kDiscard;  // OOM killer etc.
    if (WIFSIGNALED(ws))
      *msg = std::string("process died: signal ") + strsignal(WTERMSIG(ws)) +
             (WTERMSIG(ws) == SIGPROF ? " (case used more than 30 s of CPU time)" : "");
    else
      *msg = "process died: exit status " + std::to_string(WEXITSTATUS(ws)) +
             " (sanitizer report)";
    return kFail;
  }
  *msg = sh->msg;
  return static_cast<Status>(sh->status);
}

inline Shared* NewShared() {
  void* m = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (m == MAP_FAILED) abort();
  return static_cast<Shared*>(m);
}

inline std::vector<uint64_t> Recorded(const Shared* sh) {
  return std::vector<uint64_t>(sh->v, sh->v + sh->n);
}

// Minimises a failing choice list. Every candidate runs in a child.
inline std::vector<uint64_t> Shrink(const Prop& p, std::vector<uint64_t> best,
                                    std::string* msg, Shared* sh, int budget) {
  auto start = std::chrono::steady_clock::now();
  auto better = [&](const std::vector<uint64_t>& c) {
    if (c.size() < best.size()) return true;
    if (c.size() > best.size()) return false;
    return c < best;
  };
  auto attempt = [&](const std::vector<uint64_t>& c) {
    if (budget <= 0) return false;
    if (std::chrono::steady_clock::now() - start > std::chrono::seconds(60)) {
      budget = 0;
      return false;
    }
    --budget;
    std::string m;
    if (RunIsolated(p, &c, 0, sh, &m) != kFail) return false;
    std::vector<uint64_t> used = Recorded(sh);
    if (!better(used)) return false;
    best = std::move(used);
    *msg = m;
    return true;
  };
  bool progress = true;
  while (progress && budget > 0) {
    progress = false;
    for (size_t k : {size_t(64), size_t(16), size_t(8), size_t(4), size_t(2), size_t(1)}) {
      for (size_t pos = best.size(); pos-- > 0 && budget > 0;) {
        if (pos + k > best.size()) continue;
        std::vector<uint64_t> c = best;
        c.erase(c.begin() + pos, c.begin() + pos + k);
        if (attempt(c)) {
          progress = true;
          continue;
        }
        // Decrement a preceding length choice together with the deletion.
        if (pos > 0 && best[pos - 1] > 0 && k <= 4) {
          c = best;
          c[pos - 1]--;
          c.erase(c.begin() + pos, c.begin() + pos + k);
          if (attempt(c)) progress = true;
        }
      }
    }
    for (size_t pos = 0; pos < best.size() && budget > 0; ++pos) {
      if (best[pos] == 0) continue;
      std::vector<uint64_t> c = best;
      c[pos] = 0;
      if (attempt(c)) {
        progress = true;
        continue;
      }
      uint64_t lo = 0, hi = pos < best.size() ? best[pos] : 0;
      while (lo + 1 < hi && budget > 0 && pos < best.size()) {
        uint64_t mid = lo + (hi - lo) / 2;
        c = best;
        c[pos] = mid;
        if (attempt(c)) {
          progress = true;
          if (pos >= best.size()) break;
          hi = best[pos];
        } else
          lo = mid;
      }
    }
  }
  return best;
}

inline std::string JsonEsc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else
      o += c;
  }
  return o;
}

// Runs the cases first, first+stride, ..., last of a property in one child, to
// reproduce failures that need state left behind by earlier cases.
inline Status RunHistory(const Prop& p, uint64_t seed, uint64_t first, uint64_t stride,
                         uint64_t last, Shared* sh, std::string* msg);

struct Stats {
  uint64_t evaluated = 0, nontrivial = 0, discarded = 0;
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, uint64_t> classes;
  std::vector<std::string> samples;
};

struct WorkerBlock {
  uint64_t current;      // index of running case + 1
  uint64_t failed;       // index of failing case + 1
  uint64_t done;
};

struct Outcome {
  Stats st;
  bool failed = false;
  std::string msg;
  std::vector<uint64_t> choices;
  std::vector<uint64_t> history;
  uint64_t index = 0;
};


inline Status RunHistory(const Prop& p, uint64_t seed, uint64_t first, uint64_t stride,
                         uint64_t last, Shared* sh, std::string* msg) {
  sh->status = 0;
  sh->msg[0] = 0;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    Silence();
    std::string m;
    for (uint64_t idx = first; idx <= last; idx += stride) {
      ArmCpuWatchdog(kCaseCpuSeconds);
      Src s(CaseSeed(seed, p.name, idx));
      s.keep_notes = idx == last;
      Status st = RunOne(p, s, &m);
      if (st == kFail) {
        m += " || only after " + std::to_string((idx - first) / stride) +
             " preceding cases in the same process; case: " + s.notes();
        snprintf(sh->msg, sizeof sh->msg, "%s", m.c_str());
        sh->status = kFail;
        _exit(0);
      }
    }
    sh->status = kPass;
    _exit(0);
  }
  int ws = 0;
  while (waitpid(pid, &ws, 0) < 0 && errno == EINTR) {
  }
  if (sh->status == 0) {
    if (WIFSIGNALED(ws) && WTERMSIG(ws) == SIGKILL) return kDiscard;
    *msg = "process died while running a sequence of cases";
    return kFail;
  }
  *msg = sh->msg;
  return static_cast<Status>(sh->status);
}

inline Outcome RunProp(const Prop& p, uint64_t seed, uint64_t cases, int workers,
                       double max_seconds) {
  Outcome out;
  auto* blocks = static_cast<WorkerBlock*>(
      mmap(nullptr, sizeof(WorkerBlock) * workers, PROT_READ | PROT_WRITE,
           MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::vector<pid_t> pids(workers);
  std::vector<std::string> files(workers);
  fflush(nullptr);
  const auto start = std::chrono::steady_clock::now();
  const char* dir = getenv("VPT_TMP");
  for (int w = 0; w < workers; ++w) {
    files[w] = std::string(dir ? dir : "/tmp") + "/vpt." + std::to_string(getpid()) + "." + std::to_string(w);
    pid_t pid = fork();
    if (pid == 0) {
      Silence();
      Stats st;
      for (uint64_t idx = w; idx < cases; idx += workers) {
        if (idx % 64 < static_cast<uint64_t>(workers) &&
            std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count() > max_seconds)
          break;
        bool other = false;
        for (int o = 0; o < workers; ++o)
          if (blocks[o].failed && blocks[o].failed - 1 < idx) other = true;
        if (other) break;
        blocks[w].current = idx + 1;
        ArmCpuWatchdog(kCaseCpuSeconds);
        Src s(CaseSeed(seed, p.name, idx));
        const bool want_sample = st.samples.size() < 2;
        s.keep_notes = want_sample;
        std::string m;
        Status r = RunOne(p, s, &m);
        if (r == kFail) {
          blocks[w].failed = idx + 1;
          break;
        }
        if (r == kDiscard) {
          st.discarded++;
          continue;
        }
        st.evaluated++;
        for (auto& c : s.classes()) st.classes[c]++;
        if (s.is_nontrivial()) {
          st.nontrivial++;
          uint64_t h = 7;
          for (uint64_t v : s.record()) h = Mix(h ^ v) + 0x1234567;
          if (st.distinct.size() < 4000000) st.distinct.insert(h);
          if (want_sample && !s.notes().empty()) st.samples.push_back(s.notes());
        }
      }
      ArmCpuWatchdog(0);
      std::ofstream f(files[w], std::ios::binary);
      f << st.evaluated << ' ' << st.nontrivial << ' ' << st.discarded << ' '
        << st.distinct.size() << ' ' << st.classes.size() << ' ' << st.samples.size() << '\n';
      for (uint64_t h : st.distinct) f.write(reinterpret_cast<const char*>(&h), 8);
      for (auto& c : st.classes) f << c.first.size() << ' ' << c.second << '\n' << c.first;
      for (auto& c : st.samples) f << c.size() << '\n' << c;
      f.close();
      blocks[w].done = 1;
      _exit(0);
    }
    pids[w] = pid;
  }
  uint64_t first_fail = ~0ull;
  bool killed = false;
  for (int w = 0; w < workers; ++w) {
    int ws = 0;
    while (waitpid(pids[w], &ws, 0) < 0 && errno == EINTR) {
    }
    if (blocks[w].failed) first_fail = std::min(first_fail, blocks[w].failed - 1);
    if (!blocks[w].done) {
      if (WIFSIGNALED(ws) && WTERMSIG(ws) == SIGKILL)
        killed = true;
      else if (blocks[w].current)
        first_fail = std::min(first_fail, blocks[w].current - 1);
      else
        killed = true;
    } else {
      std::ifstream f(files[w], std::ios::binary);
      uint64_t e, n, d, nd, nc, ns;
      f >> e >> n >> d >> nd >> nc >> ns;
      f.get();
      out.st.evaluated += e;
      out.st.nontrivial += n;
      out.st.discarded += d;
      for (uint64_t k = 0; k < nd; ++k) {
        uint64_t h;
        f.read(reinterpret_cast<char*>(&h), 8);
        out.st.distinct.insert(h);
      }
      for (uint64_t k = 0; k < nc; ++k) {
        uint64_t len, cnt;
        f >> len >> cnt;
        f.get();
        std::string c(len, 0);
        f.read(&c[0], len);
        out.st.classes[c] += cnt;
      }
      for (uint64_t k = 0; k < ns; ++k) {
        uint64_t len;
        f >> len;
        f.get();
        std::string c(len, 0);
        f.read(&c[0], len);
        if (out.st.samples.size() < 3) out.st.samples.push_back(c);
      }
    }
    unlink(files[w].c_str());
  }
  munmap(blocks, sizeof(WorkerBlock) * workers);
  if (first_fail != ~0ull) {
    Shared* sh = NewShared();
    std::string m;
    Status r = RunIsolated(p, nullptr, CaseSeed(seed, p.name, first_fail), sh, &m);
    out.index = first_fail;
    out.choices = Recorded(sh);
    if (r == kFail) {
      out.failed = true;
      out.msg = m;
      if (!getenv("VPT_NOSHRINK")) out.choices = Shrink(p, out.choices, &out.msg, sh, 3000);
    } else {
      // Only failed in a worker that had run other cases before: state leaks
      // between cases. Find the shortest run of preceding cases that fails.
      out.failed = true;
      out.msg = "FLAKY: case failed once but not in isolation";
      for (uint64_t k = 1;; k *= 4) {
        uint64_t stride = workers;
        uint64_t max_k = first_fail / stride;
        uint64_t kk = std::min(k, max_k);
        std::string hm;
        if (RunHistory(p, seed, first_fail - kk * stride, stride, first_fail, sh, &hm) == kFail) {
          out.msg = hm;
          out.history = {seed, first_fail - kk * stride, stride, first_fail};
          break;
        }
        if (kk == max_k) break;
      }
    }
    munmap(sh, sizeof(Shared));
  } else if (killed) {
    out.msg = "KILLED";
  }
  return out;
}

inline int Main(int argc, char** argv) {
  std::string only, out_file, replay_file;
  bool thorough = false, list = false;
  uint64_t seed = 1;
  int workers = 8;
  double scale = 1, max_seconds = 1e9;
  std::vector<std::string> prefixes;
  for (int k = 1; k < argc; ++k) {
    std::string a = argv[k];
    auto val = [&]() { return std::string(argv[++k]); };
    if (a == "--only")
      only = val();
    else if (a == "--prefix")
      prefixes.push_back(val());
    else if (a == "--out")
      out_file = val();
    else if (a == "--replay")
      replay_file = val();
    else if (a == "--thorough")
      thorough = true;
    else if (a == "--seed")
      seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--workers")
      workers = atoi(val().c_str());
    else if (a == "--scale")
      scale = atof(val().c_str());
    else if (a == "--max-seconds")
      max_seconds = atof(val().c_str());
    else if (a == "--list")
      list = true;
  }
  if (list) {
    for (auto& p : Registry()) std::cout << p.name << "\n";
    return 0;
  }
  if (!replay_file.empty()) {
    // Format: property name, then the choices, whitespace separated.
    std::ifstream f(replay_file);
    std::string name, tok;
    std::vector<uint64_t> c;
    bool history = false;
    while (f >> tok) {
      if (tok[0] == '#') {
        std::getline(f, tok);
        continue;
      }
      if (name.empty())
        name = tok;
      else if (tok == "history")
        history = true;
      else
        c.push_back(strtoull(tok.c_str(), nullptr, 10));
    }
    for (auto& p : Registry()) {
      if (p.name != name) continue;
      Shared* sh = NewShared();
      std::string m;
      Status r = history ? RunHistory(p, c.at(0), c.at(1), c.at(2), c.at(3), sh, &m)
                         : RunIsolated(p, &c, 0, sh, &m);
      if (r == kFail) {
        std::cout << "REPLAY FAIL " << name << ": " << m << "\n";
        return 1;
      }
      std::cout << "REPLAY PASS " << name << "\n";
      return 0;
    }
    std::cerr << "no such property: " << name << "\n";
    return 2;
  }
  std::ofstream o(out_file.empty() ? "/dev/stdout" : out_file.c_str());
  o << "{\"props\":[";
  bool first = true, bad = false;
  for (auto& p : Registry()) {
    if (!only.empty() && p.name != only) continue;
    if (!prefixes.empty()) {
      bool hit = false;
      for (auto& x : prefixes) hit = hit || p.name.compare(0, x.size(), x) == 0;
      if (!hit) continue;
    }
    uint64_t cases = static_cast<uint64_t>((thorough ? p.thorough : p.quick) * scale);
    if (cases < 1) cases = 1;
    auto t0 = std::chrono::steady_clock::now();
    Outcome r = RunProp(p, seed, cases, workers, max_seconds);
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (!first) o << ",";
    first = false;
    o << "\n{\"name\":\"" << p.name << "\",\"planned\":" << cases
      << ",\"evaluated\":" << r.st.evaluated << ",\"nontrivial\":" << r.st.nontrivial
      << ",\"distinct\":" << r.st.distinct.size() << ",\"discarded\":" << r.st.discarded
      << ",\"wall_s\":" << dt << ",\"failed\":" << (r.failed ? "true" : "false")
      << ",\"msg\":\"" << JsonEsc(r.msg) << "\",\"case_index\":" << r.index << ",\"choices\":[";
    for (size_t k = 0; k < r.choices.size(); ++k) o << (k ? "," : "") << r.choices[k];
    o << "],\"history\":[";
    for (size_t k = 0; k < r.history.size(); ++k) o << (k ? "," : "") << r.history[k];
    o << "],\"classes\":{";
    bool f2 = true;
    for (auto& c : r.st.classes) {
      o << (f2 ? "" : ",") << "\"" << JsonEsc(c.first) << "\":" << c.second;
      f2 = false;
    }
    o << "},\"samples\":[";
    for (size_t k = 0; k < r.st.samples.size(); ++k)
      o << (k ? "," : "") << "\"" << JsonEsc(r.st.samples[k].substr(0, 600)) << "\"";
    o << "]}";
    o.flush();
    bad = bad || r.failed;
    if (bad && getenv("VPT_FAILFAST")) break;
  }
  o << "\n]}\n";
  return bad ? 1 : 0;
}

}  // namespace vpt

#define VPT_MAIN \
  int main(int argc, char** argv) { return vpt::Main(argc, argv); }
#endif
