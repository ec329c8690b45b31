// A generated calibration problem and a double precision reference of one
// iteration of every gain solver (alternating least squares).
#ifndef GAIN_UTIL_H_
#define GAIN_UTIL_H_
#include "steps_util.h"

#include <Eigen/Dense>

#include "ddecal/gain_solvers/SolveData.h"
#include "ddecal/gain_solvers/SolverTools.h"

namespace gu {
using vpt::Src;
using cd = std::complex<double>;
using cf = std::complex<float>;
using dp3::base::DPBuffer;
using Sols = std::vector<std::vector<cd>>;  // [channel block][(antenna * nsub + sub) * npol + pol]

inline cd C(cf v) { return cd(v.real(), v.imag()); }
inline bool Fin(cd v) { return std::isfinite(v.real()) && std::isfinite(v.imag()); }

struct Problem {
  size_t nant, nch, ncb, ntime, ndir, nbl;
  std::vector<int> a1, a2;
  std::vector<size_t> nsol;  // solutions per direction, as requested
  std::vector<std::string> names;
  // index ((t * nbl + bl) * nch + ch) * 4 + corr
  std::vector<cf> data;
  std::vector<std::vector<cf>> model;
  std::vector<float> w;
  std::vector<char> flag;
  size_t I(size_t t, size_t bl, size_t ch) const { return ((t * nbl + bl) * nch + ch) * 4; }
  size_t Begin(size_t cb) const { return cb * nch / ncb; }
  size_t NSol(size_t d) const { return std::min(nsol[d], ntime); }
  size_t NSub() const {
    size_t n = 0;
    for (size_t d = 0; d < ndir; ++d) n += NSol(d);
    return n;
  }
  size_t Sub(size_t d, size_t t) const {
    size_t n = 0;
    for (size_t e = 0; e < d; ++e) n += NSol(e);
    return n + t * NSol(d) / ntime;
  }
  bool Bad(size_t i) const {
    for (size_t c = 0; c < 4; ++c) {
      if (flag[i + c] || !Fin(data[i + c])) return true;
      for (const auto& m : model)
        if (!Fin(m[i + c])) return true;
    }
    return false;
  }
};

struct Opt {
  bool dd_intervals = false;  // several solutions per direction
  bool junk = true;           // autocorrelations, flags, NaNs
  size_t max_dir = 3, max_ant = 6;
  bool same_weight = false;      // all weights are one
  bool matrix_weight = false;    // one weight for the four correlations
  bool full_model = true;  // off-diagonal model visibilities
};

// A problem without data: models, weights and flags.
inline Problem Gen(Src& s, const Opt& o) {
  Problem p;
  p.nant = s.n(3, o.max_ant);
  p.ndir = s.n(1, std::min<size_t>(o.max_dir, p.nant > 3 ? 3 : 2));
  p.ncb = s.n(1, 3);
  p.nch = p.ncb * s.n(1, 2) + (s.chance(1, 3) ? s.n(0, p.ncb) : 0);
  p.ntime = s.n(1, 4);
  for (size_t d = 0; d < p.ndir; ++d) {
    p.nsol.push_back(o.dd_intervals ? s.pick<size_t>({1, 1, 2, 3, 5}) : 1);
    p.names.push_back("dir" + std::to_string(d));
  }
  std::vector<std::pair<int, int>> bls;
  const bool swapped = s.chance(1, 3), autos = o.junk && s.b(), sparse = s.chance(1, 5);
  for (size_t i = 0; i < p.nant; ++i)
    for (size_t j = i; j < p.nant; ++j) {
      if (i == j && !autos) continue;
      if (i != j && sparse && s.chance(1, 5)) continue;
      if (swapped && s.b()) bls.push_back({int(j), int(i)});
      else bls.push_back({int(i), int(j)});
    }
  bool cross = false;
  for (auto& b : bls) cross |= b.first != b.second;
  if (!cross) bls.push_back({0, 1});
  if (s.b()) s.shuffle(bls);
  for (auto& b : bls) p.a1.push_back(b.first), p.a2.push_back(b.second);
  p.nbl = bls.size();
  const size_t n = p.ntime * p.nbl * p.nch * 4;
  p.data.assign(n, cf(0, 0));
  p.flag.assign(n, 0);
  p.w.assign(n, 1.f);
  p.model.assign(p.ndir, std::vector<cf>(n));
  const bool unit_w = s.chance(1, 4);
  const double off = o.full_model ? s.pick({0.0, 0.1, 0.7}) : 0.0;
  std::vector<double> level(p.ndir);
  for (double& l : level) l = s.pick({1.0, 1.0, 0.6, 2.0});
  for (size_t i = 0; i < n; i += 4) {
    for (size_t c = 0; c < 4; ++c) {
      const bool diag = c == 0 || c == 3;
      for (size_t d = 0; d < p.ndir; ++d) {
        cd v = s.cplx(1);
        if (diag) v = std::polar(0.4 + 0.6 * std::abs(v), std::arg(v));
        p.model[d][i + c] = cf(v * level[d] * (diag ? 1.0 : off));
      }
      if (!unit_w && !o.same_weight) p.w[i + c] = float(0.25 + 2.0 * s.real(0, 1));
    }
  }
  if (o.matrix_weight)
    for (size_t i = 0; i < n; i += 4) p.w[i + 1] = p.w[i + 2] = p.w[i + 3] = p.w[i];
  if (o.junk && s.b()) {
    const int k = int(s.n(1, 6));
    for (int j = 0; j < k; ++j) {
      const size_t i = s.n(n);
      switch (s.n(4)) {
        case 0: p.flag[i] = 1; break;
        case 1: for (size_t c = 0; c < 4; ++c) p.flag[i / 4 * 4 + c] = 1; break;
        case 2: p.model[s.n(p.ndir)][i] = cf(std::nanf(""), 1); break;
        default: p.w[i] = 0; if (o.matrix_weight) for (size_t c = 0; c < 4; ++c) p.w[i / 4 * 4 + c] = 0; break;
      }
    }
    s.label("flags, NaNs or zero weights");
  }
  return p;
}

// Jones matrix of a solution with 1, 2 or 4 polarizations.
inline void Jones(const std::vector<cd>& sol, size_t npol, size_t idx, cd j[4]) {
  const cd* q = &sol[idx * npol];
  j[0] = q[0], j[1] = npol == 4 ? q[1] : cd(0), j[2] = npol == 4 ? q[2] : cd(0);
  j[3] = npol == 4 ? q[3] : npol == 2 ? q[1] : q[0];
}
inline void Mul(const cd* a, const cd* b, cd* r) {
  r[0] = a[0] * b[0] + a[1] * b[2], r[1] = a[0] * b[1] + a[1] * b[3];
  r[2] = a[2] * b[0] + a[3] * b[2], r[3] = a[2] * b[1] + a[3] * b[3];
}
inline void Herm(const cd* a, cd* r) {
  r[0] = std::conj(a[0]), r[1] = std::conj(a[2]), r[2] = std::conj(a[1]), r[3] = std::conj(a[3]);
}
inline void Corrupt(const cd* j1, const cd* m, const cd* j2, cd* r) {
  cd t[4], h[4];
  Herm(j2, h);
  Mul(j1, m, t);
  Mul(t, h, r);
}

// Sets the data to the sum of the models corrupted by the gains.
inline void SetData(Problem& p, const Sols& g, size_t npol, double noise, Src& s) {
  const size_t nsub = p.NSub();
  for (size_t cb = 0; cb < p.ncb; ++cb)
    for (size_t ch = p.Begin(cb); ch < p.Begin(cb + 1); ++ch)
      for (size_t t = 0; t < p.ntime; ++t)
        for (size_t bl = 0; bl < p.nbl; ++bl) {
          const size_t i = p.I(t, bl, ch);
          cd sum[4] = {};
          for (size_t d = 0; d < p.ndir; ++d) {
            cd j1[4], j2[4], m[4], r[4];
            Jones(g[cb], npol, p.a1[bl] * nsub + p.Sub(d, t), j1);
            Jones(g[cb], npol, p.a2[bl] * nsub + p.Sub(d, t), j2);
            for (int c = 0; c < 4; ++c) m[c] = C(p.model[d][i + c]);
            Corrupt(j1, m, j2, r);
            for (int c = 0; c < 4; ++c) sum[c] += r[c];
          }
          for (int c = 0; c < 4; ++c) p.data[i + c] = cf(sum[c] + (noise > 0 ? s.cplx(noise) : cd(0)));
          if (p.a1[bl] == p.a2[bl]) p.data[i] = cf(1e3, 5);  // must not be used
        }
}

inline Sols GenSols(Src& s, const Problem& p, size_t npol, double spread, bool phase_only = false) {
  Sols g(p.ncb, std::vector<cd>(p.nant * p.NSub() * npol));
  for (auto& v : g)
    for (size_t i = 0; i < v.size(); ++i) {
      const bool off = npol == 4 && (i % 4 == 1 || i % 4 == 2);
      if (off) v[i] = s.cplx(0.3 * std::min(1.0, spread));
      else v[i] = std::polar(phase_only ? 1.0 : 1.0 + 0.4 * spread * s.sym(1), M_PI * 0.95 * spread * s.sym(1));
    }
  return g;
}

// What ddecal does with the buffers of one solution interval.
inline std::vector<DPBuffer> Weighted(const Problem& p, bool keep_model, bool linear) {
  std::vector<std::unique_ptr<DPBuffer>> raw;
  std::vector<DPBuffer> out(p.ntime);
  const std::array<size_t, 3> shape{p.nbl, p.nch, 4};
  for (size_t t = 0; t < p.ntime; ++t) {
    auto b = std::make_unique<DPBuffer>();
    b->GetData().resize(shape);
    b->GetWeights().resize(shape);
    b->GetFlags().resize(shape);
    for (const std::string& n : p.names) b->AddData(n);
    for (size_t bl = 0; bl < p.nbl; ++bl)
      for (size_t ch = 0; ch < p.nch; ++ch)
        for (size_t c = 0; c < 4; ++c) {
          const size_t i = p.I(t, bl, ch) + c;
          b->GetData()(bl, ch, c) = p.data[i];
          b->GetWeights()(bl, ch, c) = p.w[i];
          b->GetFlags()(bl, ch, c) = p.flag[i];
          for (size_t d = 0; d < p.ndir; ++d) b->GetData(p.names[d])(bl, ch, c) = p.model[d][i];
        }
    raw.push_back(std::move(b));
  }
  dp3::ddecal::AssignAndWeight(raw, p.names, out, keep_model, linear);
  for (size_t t = 0; t < p.ntime; ++t) {
    for (size_t i = 0; i < p.nbl * p.nch * 4; ++i)
      CHECK(p.data[t * p.nbl * p.nch * 4 + i] == raw[t]->GetData().data()[i] || !Fin(p.data[t * p.nbl * p.nch * 4 + i]), "input data changed");
    for (size_t d = 0; d < p.ndir; ++d) {
      CHECK_EQ(raw[t]->HasData(p.names[d]), keep_model, "unweighted model data kept");
      if (!keep_model) continue;
      for (size_t i = 0; i < p.nbl * p.nch * 4; ++i) {
        const cf m = p.model[d][t * p.nbl * p.nch * 4 + i];
        CHECK(m == raw[t]->GetData(p.names[d]).data()[i] || !Fin(m), "unweighted model data changed");
      }
    }
  }
  return out;
}

enum Kind { kScalar, kDiagonal, kFull, kItScalar, kItDiagonal, kItFull };
inline size_t NPol(Kind k) { return k == kScalar || k == kItScalar ? 1 : k == kDiagonal || k == kItDiagonal ? 2 : 4; }
inline bool Iterative(Kind k) { return k >= kItScalar; }

// One unconstrained iteration of a solver: for every antenna the least squares
// solution with the gains of all other antennas (and, for the iterative
// solvers, of the other directions) fixed. corr: which correlations take part
// (4: all, 2: XX and YY, 1: the mean of XX and YY). Sets `cond` to the worst
// condition number that was met.
inline Sols Iterate(const Problem& p, Kind kind, size_t corr, const Sols& cur, double& cond) {
  const size_t npol = NPol(kind), nsub = p.NSub();
  const bool iter = Iterative(kind);
  Sols next(p.ncb, std::vector<cd>(p.nant * nsub * npol, cd(NAN, NAN)));
  for (size_t cb = 0; cb < p.ncb; ++cb) {
    // Rows of one weighted visibility matrix, seen from antenna a: v = J_a * sum_d k_d.
    struct Vis { cd v[4]; double w[4]; std::vector<std::array<cd, 4>> k; std::vector<size_t> sub; };
    for (size_t a = 0; a < p.nant; ++a) {
      std::vector<Vis> vis;
      for (size_t t = 0; t < p.ntime; ++t)
        for (size_t bl = 0; bl < p.nbl; ++bl) {
          if (p.a1[bl] == p.a2[bl] || (size_t(p.a1[bl]) != a && size_t(p.a2[bl]) != a)) continue;
          const bool first = size_t(p.a1[bl]) == a;
          const size_t b = first ? p.a2[bl] : p.a1[bl];
          for (size_t ch = p.Begin(cb); ch < p.Begin(cb + 1); ++ch) {
            const size_t i = p.I(t, bl, ch);
            if (p.Bad(i)) continue;
            Vis x;
            cd v[4];
            double sw[4];
            for (int c = 0; c < 4; ++c) v[c] = C(p.data[i + c]), sw[c] = std::sqrt(double(p.w[i + c]));
            if (first) std::copy(v, v + 4, x.v), std::copy(sw, sw + 4, x.w);
            else Herm(v, x.v), x.w[0] = sw[0], x.w[1] = sw[2], x.w[2] = sw[1], x.w[3] = sw[3];
            for (size_t d = 0; d < p.ndir; ++d) {
              cd m[4], mh[4], jb[4], jh[4];
              for (int c = 0; c < 4; ++c) m[c] = C(p.model[d][i + c]);
              if (!first) Herm(m, mh), std::copy(mh, mh + 4, m);
              Jones(cur[cb], npol, b * nsub + p.Sub(d, t), jb);
              Herm(jb, jh);
              std::array<cd, 4> k;
              Mul(m, jh, k.data());
              x.k.push_back(k);
              x.sub.push_back(p.Sub(d, t));
            }
            vis.push_back(x);
          }
        }
      // The solver weights V and M before the gains are applied. For full Jones
      // this makes (W o M) J^H differ from W o (M J^H) unless the weights are equal:
      // only used with equal weights per visibility there.
      auto solve = [&](const std::vector<size_t>& subs, int pol) {
        // pol: 0, 1 = row of J (diagonal); -1 = scalar; -2 - r = row r of a full matrix
        const bool full = pol <= -2;
        const size_t nu = subs.size() * (full ? 2 : 1);
        std::vector<std::vector<cd>> rows;
        std::vector<cd> rhs;
        for (const Vis& x : vis) {
          std::vector<int> use(subs.size(), -1);
          bool any = false;
          for (size_t u = 0; u < subs.size(); ++u)
            for (size_t d = 0; d < p.ndir; ++d)
              if (x.sub[d] == subs[u]) use[u] = int(d), any = true;
          if (!any) continue;
          cd v[4] = {x.v[0], x.v[1], x.v[2], x.v[3]};
          if (iter)  // remove the other directions with their current gains
            for (size_t d = 0; d < p.ndir; ++d) {
              if (x.sub[d] == subs[0]) continue;
              cd j[4], r[4];
              Jones(cur[cb], npol, a * nsub + x.sub[d], j);
              Mul(j, x.k[d].data(), r);
              for (int c = 0; c < 4; ++c) v[c] -= r[c];
            }
          if (corr == 1) {
            std::vector<cd> row(nu);
            // scalar: mean of the weighted XX and YY
            for (size_t u = 0; u < subs.size(); ++u)
              row[u] = 0.5 * (x.w[0] * x.k[use[u]][0] + x.w[3] * x.k[use[u]][3]);
            rows.push_back(row), rhs.push_back(0.5 * (x.w[0] * v[0] + x.w[3] * v[3]));
            continue;
          }
          for (int c = 0; c < 4; ++c) {
            if (corr == 2 && (c == 1 || c == 2)) continue;
            const int r = c / 2, q = c % 2;
            if (pol >= 0 && r != pol) continue;
            if (full && r != -2 - pol) continue;
            std::vector<cd> row(nu, cd(0));
            for (size_t u = 0; u < subs.size(); ++u) {
              if (use[u] < 0) continue;
              if (full)
                row[2 * u] = x.w[c] * x.k[use[u]][q], row[2 * u + 1] = x.w[c] * x.k[use[u]][2 + q];
              else
                row[u] = x.w[c] * x.k[use[u]][r * 2 + q];
            }
            rows.push_back(row), rhs.push_back(x.w[c] * v[c]);
          }
        }
        std::vector<cd> out(nu, cd(NAN, NAN));
        bool nonzero = false;
        for (auto& r : rows)
          for (cd z : r) nonzero |= z != cd(0);
        if (!nonzero) return out;
        Eigen::MatrixXcd A(rows.size(), nu);
        Eigen::VectorXcd B(rows.size());
        for (size_t r = 0; r < rows.size(); ++r) {
          for (size_t c = 0; c < nu; ++c) A(r, c) = rows[r][c];
          B(r) = rhs[r];
        }
        if (rows.size() < nu) { cond = 1e30; return out; }
        Eigen::JacobiSVD<Eigen::MatrixXcd> svd(A, Eigen::ComputeThinU | Eigen::ComputeThinV);
        const double lo = svd.singularValues()(nu - 1);
        cond = std::max(cond, lo > 0 ? svd.singularValues()(0) / lo : 1e30);
        const Eigen::VectorXcd X = svd.solve(B);
        for (size_t u = 0; u < nu; ++u) out[u] = X(u);
        return out;
      };
      std::vector<std::vector<size_t>> groups;
      if (iter)
        for (size_t u = 0; u < nsub; ++u) groups.push_back({u});
      else {
        groups.emplace_back();
        for (size_t u = 0; u < nsub; ++u) groups[0].push_back(u);
      }
      for (const auto& g : groups) {
        if (npol == 1) {
          auto x = solve(g, -1);
          for (size_t u = 0; u < g.size(); ++u) next[cb][a * nsub + g[u]] = x[u];
        } else if (npol == 2) {
          for (int q = 0; q < 2; ++q) {
            auto x = solve(g, q);
            for (size_t u = 0; u < g.size(); ++u) next[cb][(a * nsub + g[u]) * 2 + q] = x[u];
          }
        } else {
          for (int r = 0; r < 2; ++r) {
            auto x = solve(g, -2 - r);
            for (size_t u = 0; u < g.size(); ++u)
              for (int e = 0; e < 2; ++e) next[cb][(a * nsub + g[u]) * 4 + r * 2 + e] = x[2 * u + e];
          }
        }
      }
    }
  }
  return next;
}

// Non-finite gains are replaced by the mean amplitude of the finite ones in
// the same channel block, per polarization.
inline void MakeFinite(Sols& g, size_t npol) {
  for (auto& v : g) {
    std::vector<double> sum(npol, 0);
    size_t n = 0;
    auto ok = [&](size_t i) {
      for (size_t q = 0; q < npol; ++q)
        if (!Fin(v[i + q])) return false;
      return true;
    };
    for (size_t i = 0; i < v.size(); i += npol)
      if (ok(i)) {
        ++n;
        for (size_t q = 0; q < npol; ++q) sum[q] += std::abs(v[i + q]);
      }
    for (size_t q = 0; q < npol; ++q) sum[q] = n ? sum[q] / n : (npol == 4 && (q == 1 || q == 2) ? 0.0 : 1.0);
    for (size_t i = 0; i < v.size(); i += npol)
      if (!ok(i))
        for (size_t q = 0; q < npol; ++q) v[i + q] = sum[q];
  }
}

// Moves from cur to next. Sets unsure if the shortest way along the circle is
// not well defined.
inline Sols Step(const Sols& cur, const Sols& next, double step, bool phase_only, bool& unsure) {
  Sols r = next;
  for (size_t b = 0; b < cur.size(); ++b)
    for (size_t i = 0; i < cur[b].size(); ++i) {
      if (!phase_only) {
        r[b][i] = cur[b][i] * (1 - step) + next[b][i] * step;
      } else if (Fin(next[b][i])) {
        const double from = std::arg(cur[b][i]), d = std::arg(next[b][i] * std::conj(cur[b][i]));
        if (std::abs(d) > M_PI - 0.05 && step < 0.9999) unsure = true;
        if (std::abs(next[b][i]) < 0.05) unsure = true;
        r[b][i] = std::polar(1.0, from + step * d);
      } else {
        r[b][i] = cd(NAN, NAN);
      }
    }
  return r;
}

// The convergence measure: mean of |(new - old) / old| per gain over the step size.
inline double Magnitude(const Sols& old, const Sols& now, size_t npol, double step) {
  double sum = 0;
  size_t n = 0;
  for (size_t b = 0; b < old.size(); ++b)
    for (size_t i = 0; i < old[b].size(); i += npol) {
      double a = 0;
      if (npol < 4) {
        for (size_t q = 0; q < npol; ++q) a += std::abs((now[b][i + q] - old[b][i + q]) / old[b][i + q]);
      } else {
        const cd* o = &old[b][i];
        const cd det = o[0] * o[3] - o[1] * o[2];
        const cd inv[4] = {o[3] / det, -o[1] / det, -o[2] / det, o[0] / det};
        cd d[4], r[4];
        for (int q = 0; q < 4; ++q) d[q] = now[b][i + q] - o[q];
        Mul(d, inv, r);
        for (int q = 0; q < 4; ++q) a += std::abs(r[q]);
      }
      if (std::isfinite(a)) sum += a, n += npol;
    }
  return n ? sum / step / n : 0;
}
}  // namespace gu
#endif
