// Generated baseline selections with their meaning.
#ifndef BLSEL_UTIL_H_
#define BLSEL_UTIL_H_
#include "steps_util.h"

#include <cmath>

namespace {
using namespace su;
typedef std::vector<std::pair<double, double>> Ranges;
std::string Num(double v) { return Cat(v); }

std::string Join(const std::vector<std::string>& v) {
  std::string r = "[";
  for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + v[i];
  return r + "]";
}
std::string Blank(Src& s) { return s.chance(1, 4) ? " " : ""; }

// ----------------------------------------------------------- baseline selection
bool Glob(const std::string& p, const std::string& t, size_t i = 0, size_t j = 0) {
  if (i == p.size()) return j == t.size();
  if (p[i] == '*') return Glob(p, t, i + 1, j) || (j < t.size() && Glob(p, t, i, j + 1));
  if (j == t.size()) return false;
  if (p[i] == '?') return Glob(p, t, i + 1, j + 1);
  return p[i] == t[j] && Glob(p, t, i + 1, j + 1);
}

struct BlSel {
  bool any = false;
  std::vector<std::vector<std::string>> pats;
  bool has_pats = false;
  std::string corr;
  Ranges len;  // inclusive
  bool Match(const Obs& b, size_t k) const {
    const int i = b.a1[k], j = b.a2[k];
    if (has_pats) {
      bool m = false;
      for (auto& p : pats) {
        if (p.size() == 1)
          m |= Glob(p[0], b.names[i]) || Glob(p[0], b.names[j]);
        else
          m |= (Glob(p[0], b.names[i]) && Glob(p[1], b.names[j])) || (Glob(p[0], b.names[j]) && Glob(p[1], b.names[i]));
      }
      if (!m) return false;
    }
    if (corr == "auto" && i != j) return false;
    if (corr == "cross" && i == j) return false;
    if (!len.empty()) {
      double d = 0;
      for (int c = 0; c < 3; ++c) d += (b.pos[i][c] - b.pos[j][c]) * (b.pos[i][c] - b.pos[j][c]);
      d = std::sqrt(d);
      bool m = false;
      for (auto& r : len) m |= d >= r.first && d <= r.second;
      if (!m) return false;
    }
    return true;
  }
};

std::string Pattern(Src& s, const Obs& b) {
  std::string n = b.names[s.n(b.nant)];
  switch (s.n(5)) {
    case 0: return n;
    case 1: return n.substr(0, s.n(1, 3)) + "*";
    case 2: n[s.n(n.size())] = '?'; return n;
    case 3: return "*" + n.substr(n.size() - s.n(1, 4));
    default: return s.chance(1, 3) ? "NONE*" : s.chance(1, 4) ? "*" : n.substr(0, 2) + "*" + n.substr(n.size() - 1);
  }
}

// minmax: with the blmin and blmax of the flaggers.
[[maybe_unused]] BlSel GenBl(Src& s, const Obs& b, ParameterSet& p, const std::string& pre, bool minmax = true) {
  BlSel r;
  const size_t which = s.n(1, 15);
  if (which & 1) {
    r.any = r.has_pats = true;
    std::vector<std::string> v;
    const size_t n = s.n(1, 3);
    for (size_t i = 0; i < n; ++i) {
      std::vector<std::string> q{Pattern(s, b)};
      if (s.b()) q.push_back(Pattern(s, b));
      r.pats.push_back(q);
      v.push_back(q.size() == 1 && s.b() ? q[0] : Join(q));
    }
    p.add(pre + "baseline", Join(v));
  } else if (s.chance(1, 4)) {
    p.add(pre + "baseline", s.b() ? "[]" : "");
  }
  if (which & 2 && s.b()) {
    r.any = true;
    r.corr = s.b() ? "auto" : "cross";
    p.add(pre + "corrtype", s.chance(1, 4) ? (r.corr == "auto" ? "AUTO" : "Cross") : r.corr);
  }
  // Lengths in between those of the baselines.
  auto length = [&] { return s.i(0, 6000) + 0.123456; };
  if (which & 4 && s.b()) {
    r.any = true;
    double x = length(), y = length();
    if (x > y) std::swap(x, y);
    r.len.push_back({x, y});
    std::vector<std::string> v{Num(x), Num(y)};
    if (s.b()) {
      const double z = y + length();
      r.len.push_back({y + 1, z + 1});
      v.push_back(Num(y + 1));
      v.push_back(Num(z + 1));
    }
    p.add(pre + "blrange", Join(v));
  }
  if (minmax && which & 8) {
    if (s.b()) {
      const double x = length();
      p.add(pre + "blmin", Num(x));
      r.len.push_back({0, x});
      r.any = true;
    }
    if (s.b()) {
      const double x = length();
      p.add(pre + "blmax", Num(x));
      r.len.push_back({x, 1e30});
      r.any = true;
    }
  }
  return r;
}

std::string ShowSet(const ParameterSet& p) {
  std::ostringstream o;
  for (auto it = p.begin(); it != p.end(); ++it) o << it->first << "=" << it->second.get() << "; ";
  return o.str();
}
}  // namespace
#endif
