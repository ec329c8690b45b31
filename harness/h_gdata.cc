// P35 input of the gain solvers: weighting, solution intervals, channel blocks.
#include "gain_util.h"

#include <algorithm>
#include <deque>

#include "ddecal/gain_solvers/BdaSolverBuffer.h"

using namespace gu;
using namespace dp3::ddecal;
using aocommon::MC2x2F;
using aocommon::MC2x2FDiag;
using dp3::base::BdaBuffer;

namespace {

// Values for which weighting and averaging XX and YY are exact.
cf Exact(Src& s) { return cf(float(s.i(-40, 40)) / 4, float(s.i(-40, 40)) / 4); }
float ExactWeight(Src& s) { return s.pick({0.0f, 1.0f, 4.0f, 0.25f, 16.0f, 9.0f, 1.0f}); }
cf Junk(Src& s) {
  const float nan = std::nanf(""), inf = INFINITY;
  return s.pick({cf(nan, 1), cf(1, nan), cf(inf, 0), cf(0, -inf), cf(nan, nan)});
}
bool Same(cf a, cf b) { return a == b || (!Fin(a) && !Fin(b)); }

struct Block {  // the values of one visibility: data and models, four correlations
  std::vector<std::array<cf, 4>> v;
};

std::vector<float> Values(const cf& m) { return {m.real(), m.imag()}; }
std::vector<float> Values(const MC2x2FDiag& m) { return {m.Get(0).real(), m.Get(0).imag(), m.Get(1).real(), m.Get(1).imag()}; }
std::vector<float> Values(const MC2x2F& m) {
  std::vector<float> r;
  for (size_t i = 0; i < 4; ++i) r.push_back(m.Get(i).real()), r.push_back(m.Get(i).imag());
  return r;
}
template <typename M>
std::vector<float> Expect(const std::array<cf, 4>& v);
template <>
std::vector<float> Expect<cf>(const std::array<cf, 4>& v) {
  return {0.5f * (v[0].real() + v[3].real()), 0.5f * (v[0].imag() + v[3].imag())};
}
template <>
std::vector<float> Expect<MC2x2FDiag>(const std::array<cf, 4>& v) {
  return {v[0].real(), v[0].imag(), v[3].real(), v[3].imag()};
}
template <>
std::vector<float> Expect<MC2x2F>(const std::array<cf, 4>& v) {
  std::vector<float> r;
  for (cf c : v) r.push_back(c.real()), r.push_back(c.imag());
  return r;
}
double L1(const std::vector<float>& v) {
  double r = 0;
  for (size_t i = 0; i < v.size(); i += 2) r += std::hypot(double(v[i]), double(v[i + 1]));
  return r;
}

struct Vis {
  std::array<size_t, 2> ant;
  std::vector<size_t> sub;  // per direction, absolute
  std::vector<std::vector<float>> v;  // data, models
  float w;
  auto operator<=>(const Vis&) const = default;
  std::string str() const {
    std::ostringstream o;
    o << ant[0] << "-" << ant[1] << " sub";
    for (size_t x : sub) o << " " << x;
    o << " w " << w << " :";
    for (auto& x : v) {
      for (float f : x) o << " " << f;
      o << " |";
    }
    return o.str();
  }
};

template <typename M>
void Compare(const SolveData<M>& sd, const std::vector<std::vector<Vis>>& expected, const std::vector<size_t>& nsol, size_t nant, bool weights) {
  const size_t ncb = expected.size(), ndir = nsol.size();
  size_t nsub = 0;
  std::vector<size_t> start;
  for (size_t n : nsol) start.push_back(nsub), nsub += n;
  CHECK_EQ(sd.NChannelBlocks(), ncb, "channel blocks");
  std::vector<std::vector<double>> sw(nsub, std::vector<double>(nant * ncb, 0.0));
  for (size_t cb = 0; cb < ncb; ++cb) {
    const auto& b = sd.ChannelBlock(cb);
    CHECK_EQ(b.NVisibilities(), expected[cb].size(), "visibilities in channel block");
    CHECK_EQ(b.NDirections(), ndir, "directions");
    CHECK_EQ(size_t(b.NSubSolutions()), nsub, "solutions in all directions");
    for (size_t d = 0; d < ndir; ++d) CHECK_EQ(size_t(b.NSolutionsForDirection(d)), nsol[d], "solutions in direction");
    CHECK_EQ(size_t(b.DataEnd() - b.DataBegin()), b.NVisibilities(), "data range");
    std::vector<Vis> got;
    std::vector<size_t> per_ant(nant, 0);
    std::vector<size_t> per_sol(nsub, 0);
    for (size_t i = 0; i < b.NVisibilities(); ++i) {
      Vis v;
      v.ant = {b.Antenna1Index(i), b.Antenna2Index(i)};
      CHECK(v.ant[0] < nant && v.ant[1] < nant, "antenna index");
      ++per_ant[v.ant[0]], ++per_ant[v.ant[1]];
      v.v.push_back(Values(b.Visibility(i)));
      CHECK(&*(b.DataBegin() + i) == &b.Visibility(i), "data iterator");
      for (size_t d = 0; d < ndir; ++d) {
        v.v.push_back(Values(b.ModelVisibility(d, i)));
        v.sub.push_back(b.SolutionIndex(d, i));
        CHECK(v.sub[d] >= start[d] && v.sub[d] < start[d] + nsol[d], "solution index in direction");
        CHECK_EQ(size_t(b.SolutionMapData()[d * b.NVisibilities() + i]), v.sub[d], "solution map");
        ++per_sol[v.sub[d]];
        for (size_t e = 0; e < 2; ++e) sw[v.sub[d]][v.ant[e] * ncb + cb] += L1(v.v.back());
      }
      v.w = weights ? b.Weight(i) : 1.0f;
      got.push_back(v);
    }
    std::vector<Vis> want = expected[cb];
    std::sort(got.begin(), got.end());
    std::sort(want.begin(), want.end());
    for (size_t i = 0; i < want.size(); ++i)
      CHECK(got[i] == want[i], "visibility in channel block ", cb, "\n got  ", got[i].str(), "\n want ", want[i].str());
    for (size_t a = 0; a < nant; ++a) CHECK_EQ(b.NAntennaVisibilities(a), per_ant[a], "visibilities of antenna ", a);
    for (size_t d = 0; d < ndir; ++d)
      for (size_t k = 0; k < nsol[d]; ++k) CHECK_EQ(b.NSolutionVisibilities(d, start[d] + k), per_sol[start[d] + k], "visibilities of solution");
  }
  const auto got = sd.GetSolutionWeights();
  CHECK_EQ(got.size(), nsub, "solution weights");
  for (size_t k = 0; k < nsub; ++k) {
    CHECK_EQ(got[k].size(), nant * ncb, "solution weights");
    for (size_t i = 0; i < sw[k].size(); ++i) CHECK_NEAR(got[k][i], sw[k][i], 1e-5 * (1 + sw[k][i]), "weight of solution ", k, " item ", i);
  }
}

}  // namespace

PROP("P35.weight", 3000, 100000) {
  const size_t nbl = s.n(1, 4), nch = s.n(1, 5), nco = s.pick<size_t>({1, 2, 4, 4}), nt = s.n(1, 4), ndir = s.n(0, 3);
  const bool keep = s.b(), linear = s.b(), used = s.chance(1, 3), exact = s.b();
  const std::array<size_t, 3> shape{nbl, nch, nco};
  const size_t n = nbl * nch * nco;
  std::vector<std::string> names, all;
  for (size_t d = 0; d < ndir; ++d) names.push_back("m" + std::to_string(d));
  all = names;
  all.push_back("extra");
  auto value = [&] { return exact ? Exact(s) : cf(s.cplx(10)); };
  struct In {
    std::map<std::string, std::vector<cf>> data;
    std::vector<float> w;
    std::vector<char> f;
  };
  std::vector<In> in(nt);
  std::vector<std::unique_ptr<DPBuffer>> raw;
  const size_t extra_out = s.n(0, 2);
  std::vector<DPBuffer> out(nt + extra_out);
  std::vector<std::string> with_main = all;
  with_main.push_back("");
  for (size_t t = 0; t < nt; ++t) {
    auto b = std::make_unique<DPBuffer>();
    b->GetData().resize(shape);
    b->GetWeights().resize(shape);
    b->GetFlags().resize(shape);
    for (auto& x : all) b->AddData(x);
    for (auto& x : with_main)
      for (size_t i = 0; i < n; ++i) in[t].data[x].push_back(value());
    for (size_t i = 0; i < n; ++i) in[t].w.push_back(exact ? ExactWeight(s) : float(s.logu(1e-6, 1e6))), in[t].f.push_back(s.chance(1, 10));
    for (size_t k = s.n(0, 3); k > 0; --k) in[t].data[with_main[s.n(with_main.size())]][s.n(n)] = Junk(s);
    for (auto& x : with_main)
      for (size_t i = 0; i < n; ++i) b->GetData(x).data()[i] = in[t].data[x][i];
    for (size_t i = 0; i < n; ++i) b->GetWeights().data()[i] = in[t].w[i], b->GetFlags().data()[i] = in[t].f[i];
    b->SetTime(100.0 + t);
    raw.push_back(std::move(b));
    if (used) {  // as after an earlier interval with other sizes
      out[t].GetData().resize({nbl + 1, nch, nco});
      if (keep && s.b()) {
        out[t].GetData().resize(shape);
        for (auto& x : names) {
          out[t].AddData(x);
          out[t].GetData(x).fill(cf(7, 7));
        }
      }
    }
  }
  AssignAndWeight(raw, names, out, keep, linear);
  size_t zeroed = 0;
  for (size_t t = 0; t < nt; ++t) {
    CHECK(raw[t] != nullptr, "unweighted buffer stays");
    for (auto& x : with_main) {
      const bool model = std::find(names.begin(), names.end(), x) != names.end();
      CHECK_EQ(raw[t]->HasData(x), keep || !model, "unweighted data '", x, "' present");
      if (keep || !model)
        for (size_t i = 0; i < n; ++i) CHECK(Same(raw[t]->GetData(x).data()[i], in[t].data[x][i]), "unweighted data '", x, "' unchanged");
    }
    for (size_t i = 0; i < n; ++i) {
      CHECK(raw[t]->GetWeights().data()[i] == in[t].w[i], "weights unchanged");
      CHECK(raw[t]->GetFlags().data()[i] == bool(in[t].f[i]), "flags unchanged");
    }
    CHECK_EQ(raw[t]->GetTime(), 100.0 + t, "time unchanged");
    if (linear) CHECK_EQ(out[t].GetWeights().size(), n, "weights stored");
    else if (!used) CHECK_EQ(out[t].GetWeights().size(), size_t(0), "no weights stored");
    std::vector<std::string> outs = names;
    outs.push_back("");
    for (size_t v = 0; v < n / nco; ++v) {
      bool bad = false;
      for (size_t c = 0; c < nco; ++c) {
        bad |= in[t].f[v * nco + c];
        for (auto& x : outs) bad |= !Fin(in[t].data[x][v * nco + c]);
      }
      zeroed += bad;
      for (size_t c = 0; c < nco; ++c) {
        const size_t i = v * nco + c;
        if (linear) CHECK(out[t].GetWeights().data()[i] == in[t].w[i], "stored weight");
        const double f = linear ? in[t].w[i] : std::sqrt(double(in[t].w[i]));
        for (auto& x : outs) {
          CHECK(out[t].HasData(x), "weighted data '", x, "'");
          CHECK_EQ(out[t].GetData(x).size(), n, "size of weighted data '", x, "'");
          const cf got = out[t].GetData(x).data()[i];
          const cd want = bad ? cd(0) : C(in[t].data[x][i]) * f;
          CHECK(Fin(got) && std::abs(C(got) - want) <= 1e-6 * std::abs(want), "weighted '", x, "' of time ", t, " visibility ", v, " correlation ", c, ": ", got, " instead of ", want);
        }
      }
    }
  }
  s.nontrivial(zeroed > 0 && zeroed < nt * n / nco && ndir > 0);
}

namespace {
template <typename M>
void Regular(const Problem& p, std::vector<DPBuffer>&& buffers, bool linear) {
  std::vector<std::vector<Vis>> want(p.ncb);
  std::vector<size_t> nsol;
  for (size_t d = 0; d < p.ndir; ++d) nsol.push_back(p.NSol(d));
  for (size_t cb = 0; cb < p.ncb; ++cb)
    for (size_t ch = p.Begin(cb); ch < p.Begin(cb + 1); ++ch)
      for (size_t t = 0; t < p.ntime; ++t)
        for (size_t bl = 0; bl < p.nbl; ++bl) {
          if (p.a1[bl] == p.a2[bl]) continue;
          const size_t i = p.I(t, bl, ch);
          const bool bad = p.Bad(i);
          Vis v;
          v.ant = {size_t(p.a1[bl]), size_t(p.a2[bl])};
          auto arr = [&](const std::vector<cf>& x) {
            std::array<cf, 4> r;
            for (size_t c = 0; c < 4; ++c) r[c] = bad ? cf(0, 0) : x[i + c] * (linear ? p.w[i + c] : std::sqrt(p.w[i + c]));
            return r;
          };
          v.v.push_back(Expect<M>(arr(p.data)));
          for (size_t d = 0; d < p.ndir; ++d) v.v.push_back(Expect<M>(arr(p.model[d]))), v.sub.push_back(p.Sub(d, t));
          v.w = linear ? p.w[i] : 1.0f;
          want[cb].push_back(v);
        }
  const SolveData<M> sd(std::move(buffers), p.names, p.ncb, p.nant, p.nsol, p.a1, p.a2);
  Compare(sd, want, nsol, p.nant, linear);
}
}  // namespace

PROP("P35.solve_data", 1200, 40000) {
  Opt o;
  o.dd_intervals = s.b();
  Problem p = Gen(s, o);
  p.ntime = s.n(1, 7);
  const size_t n = p.ntime * p.nbl * p.nch * 4;
  p.data.resize(n), p.w.resize(n), p.flag.assign(n, 0);
  for (auto& m : p.model) m.resize(n);
  for (size_t i = 0; i < n; ++i) {
    p.data[i] = Exact(s), p.w[i] = ExactWeight(s);
    for (auto& m : p.model) m[i] = Exact(s);
    if (s.chance(1, 20)) p.flag[i] = 1;
  }
  for (size_t k = s.n(0, 3); k > 0; --k) (s.b() ? p.data : p.model[s.n(p.ndir)])[s.n(n)] = Junk(s);
  if (s.chance(1, 4)) ++p.nant;  // an antenna without baselines
  const bool linear = s.b();
  auto w = Weighted(p, s.b(), linear);
  s.nontrivial(p.nbl > 1 && p.ntime > 1 && p.nch > 1);
  switch (s.n(3)) {
    case 0: Regular<cf>(p, std::move(w), linear); break;
    case 1: Regular<MC2x2FDiag>(p, std::move(w), linear); break;
    default: Regular<MC2x2F>(p, std::move(w), linear); break;
  }
}

namespace {
struct Row {
  double t0, dt;
  size_t bl, nch;
  std::vector<std::vector<cf>> v;  // data, models
  std::vector<float> w;
  std::vector<char> f;
  std::vector<std::vector<cf>> applied;  // the unweighted models as they should be now
  double mid() const { return t0 + dt / 2; }
};
struct Buf {
  std::vector<size_t> rows;
  int id;
};

template <typename M>
void CompareBda(const BdaSolverBuffer& b, const std::vector<Row>& rows, const std::vector<size_t>& now, size_t ncb, size_t nant, const std::vector<size_t>& nsol_in,
                const std::vector<int>& a1, const std::vector<int>& a2, bool with_weights, double istart, double dur) {
  std::vector<size_t> nsol;
  for (size_t x : nsol_in) nsol.push_back(std::min(x, now.size()));
  std::vector<std::vector<Vis>> want(ncb);
  for (size_t r : now) {
    const Row& row = rows[r];
    if (a1[row.bl] == a2[row.bl]) continue;
    for (size_t cb = 0; cb < ncb; ++cb)
      for (size_t ch = cb * row.nch / ncb; ch < (cb + 1) * row.nch / ncb; ++ch) {
        bool bad = false;
        for (size_t c = 0; c < 4; ++c) {
          bad |= row.f[ch * 4 + c];
          for (auto& x : row.v) bad |= !Fin(x[ch * 4 + c]);
        }
        Vis v;
        v.ant = {size_t(a1[row.bl]), size_t(a2[row.bl])};
        for (auto& x : row.v) {
          std::array<cf, 4> q;
          for (size_t c = 0; c < 4; ++c) q[c] = bad ? cf(0, 0) : x[ch * 4 + c] * std::sqrt(row.w[ch * 4 + c]);
          v.v.push_back(Expect<M>(q));
        }
        size_t first = 0;
        for (size_t d = 0; d < nsol.size(); ++d) {
          const size_t k = size_t(std::floor((row.mid() - istart) * nsol[d] / dur));
          v.sub.push_back(first + std::min(nsol[d] - 1, k));
          first += nsol[d];
        }
        v.w = 1;
        want[cb].push_back(v);
      }
  }
  const SolveData<M> sd(b, ncb, nant, nsol_in, a1, a2, with_weights);
  Compare(sd, want, nsol, nant, with_weights);
}
}  // namespace

PROP("P35.bda_history", 1500, 50000) {
  const size_t nant = s.n(2, 4), ndir = s.n(1, 3);
  std::vector<int> a1, a2;
  for (size_t i = 0; i < nant; ++i)
    for (size_t j = i; j < nant; ++j)
      if (i != j || s.chance(1, 3)) a1.push_back(i), a2.push_back(j);
  const size_t nbl = a1.size(), ntime = s.n(1, 14);
  const size_t sol = s.n(1, 5);  // length of the solution interval
  const double start = s.pick({0.0, 40.0, 4.5e9});
  std::vector<std::string> names;
  for (size_t d = 0; d < ndir; ++d) names.push_back("d" + std::to_string(d));
  // Channels and frequencies per baseline.
  const size_t full = s.pick<size_t>({1, 2, 3, 4, 6});
  std::vector<std::vector<double>> freqs(nbl);
  std::vector<Row> rows;
  for (size_t bl = 0; bl < nbl; ++bl) {
    const size_t group = s.n(1, full);
    for (size_t c = 0; c < full; c += group) freqs[bl].push_back(100.0 + c + std::min(group, full - c) / 2.0);
    const size_t len = s.n(1, sol);
    for (size_t t = 0; t < ntime; t += len) {
      Row r;
      r.t0 = start + t, r.dt = double(std::min(len, ntime - t)), r.bl = bl, r.nch = freqs[bl].size();
      rows.push_back(r);
    }
  }
  if (s.b()) s.shuffle(rows);
  std::stable_sort(rows.begin(), rows.end(), [](const Row& a, const Row& b) { return a.t0 < b.t0; });
  for (Row& r : rows) {
    r.v.resize(ndir + 1);
    for (auto& x : r.v)
      for (size_t i = 0; i < r.nch * 4; ++i) x.push_back(s.chance(1, 60) ? Junk(s) : Exact(s));
    for (size_t i = 0; i < r.nch * 4; ++i) r.w.push_back(ExactWeight(s)), r.f.push_back(s.chance(1, 15));
    r.applied.assign(r.v.begin() + 1, r.v.end());
  }
  const bool keep = s.b();
  BdaSolverBuffer buffer(start, double(sol), nbl);
  std::deque<Buf> active;
  std::vector<int> done;
  size_t next = 0, intervals_seen = 0, solved = 0;
  int interval = 0, next_id = 0, returned = 0;
  std::map<int, Buf> by_id;
  std::vector<double> last(nbl, -1);  // start of the last row per baseline
  bool spanned = false;
  int empties = 2;
  auto of = [&](const Row& r) { return int(std::floor((r.mid() - start) / double(sol))); };
  auto check_unweighted = [&](BdaBuffer& b, const Buf& m) {
    CHECK_EQ(b.GetRows().size(), m.rows.size(), "rows of returned buffer");
    for (size_t k = 0; k < m.rows.size(); ++k) {
      const Row& r = rows[m.rows[k]];
      CHECK_EQ(b.GetRows()[k].baseline_nr, r.bl, "baseline of returned row");
      CHECK_EQ(b.GetRows()[k].time, r.mid(), "time of returned row");
      for (size_t i = 0; i < r.nch * 4; ++i) {
        CHECK(Same(b.GetData(k)[i], r.v[0][i]), "returned data unweighted");
        CHECK(b.GetWeights(k)[i] == r.w[i], "returned weights");
        CHECK(b.GetFlags(k)[i] == bool(r.f[i]), "returned flags");
      }
      for (size_t d = 0; d < ndir; ++d) {
        CHECK_EQ(b.HasData(names[d]), keep, "model data in returned buffer");
        if (!keep) continue;
        for (size_t i = 0; i < r.nch * 4; ++i) {
          const cf got = b.GetData(k, names[d])[i], want = r.applied[d][i];
          CHECK(std::abs(C(got) - C(want)) <= 1e-4 * (1 + std::abs(want)) || !Fin(want), "model in returned buffer: ", got, " instead of ", want);
        }
      }
    }
  };
  auto verify = [&] {
    std::vector<size_t> now;
    for (size_t r = 0; r < next; ++r)
      if (of(rows[r]) == interval) now.push_back(r);
    CHECK_EQ(buffer.GetCurrentInterval(), interval, "current interval");
    CHECK_EQ(buffer.CurrentIntervalStart(), start + double(sol) * interval, "start of interval");
    CHECK_EQ(buffer.IntervalDuration(), double(sol), "duration");
    CHECK_EQ(buffer.BufferCount(), active.size(), "active buffers");
    bool complete = true;
    for (size_t bl = 0; bl < nbl; ++bl) complete &= last[bl] >= 0 && last[bl] >= double(sol) * (interval + 1);
    CHECK_EQ(buffer.IntervalIsComplete(), complete, "interval complete");
    const auto& got = buffer.GetIntervalRows();
    CHECK_EQ(got.size(), now.size(), "rows of interval ", interval);
    for (size_t k = 0; k < now.size(); ++k) {
      const Row& r = rows[now[k]];
      CHECK_EQ(got[k].time, r.mid(), "time of row");
      CHECK_EQ(got[k].baseline_nr, r.bl, "baseline of row");
      CHECK_EQ(got[k].n_channels, r.nch, "channels of row");
      CHECK_EQ(got[k].n_correlations, size_t(4), "correlations of row");
      CHECK_EQ(got[k].unweighted_model_data.size(), keep ? ndir : 0, "unweighted models");
      CHECK_EQ(got[k].weighted_model_data.size(), ndir, "weighted models");
      for (size_t i = 0; i < r.nch * 4; ++i) CHECK(Same(got[k].unweighted_data[i], r.v[0][i]) && got[k].flags[i] == bool(r.f[i]) && got[k].weights[i] == r.w[i], "row data");
    }
    if (now.empty()) return;
    ++solved;
    const size_t ncb = s.n(1, 3);
    std::vector<size_t> nsol;
    for (size_t d = 0; d < ndir; ++d) nsol.push_back(s.pick<size_t>({1, 1, 2, 3, 4}));
    const double istart = start + double(sol) * interval;
    const bool ww = s.b();
    switch (s.n(3)) {
      case 0: CompareBda<cf>(buffer, rows, now, ncb, nant, nsol, a1, a2, ww, istart, double(sol)); break;
      case 1: CompareBda<MC2x2FDiag>(buffer, rows, now, ncb, nant, nsol, a1, a2, ww, istart, double(sol)); break;
      default: CompareBda<MC2x2F>(buffer, rows, now, ncb, nant, nsol, a1, a2, ww, istart, double(sol)); break;
    }
    if (keep && s.chance(1, 3)) {
      const size_t npol = s.pick<size_t>({1, 2, 4});
      std::vector<double> bounds{99.9};
      for (size_t b = 1; b < ncb; ++b) bounds.push_back(100.0 + double(full) * b / ncb + 0.01);
      bounds.push_back(100.1 + full);
      std::vector<std::vector<cd>> sols(ncb, std::vector<cd>(nant * ndir * npol));
      for (auto& x : sols)
        for (cd& c : x) c = s.cplx(1.5);
      buffer.ApplySolutions(sols, bounds, npol, a1, a2, freqs);
      for (size_t r : now)
        for (size_t ch = 0; ch < rows[r].nch; ++ch) {
          size_t b = 0;
          while (freqs[rows[r].bl][ch] > bounds[b + 1]) ++b;
          for (size_t d = 0; d < ndir; ++d) {
            cd j1[4], j2[4], m[4], out[4];
            Jones(sols[b], npol, a1[rows[r].bl] * ndir + d, j1);
            Jones(sols[b], npol, a2[rows[r].bl] * ndir + d, j2);
            cf* x = &rows[r].applied[d][ch * 4];
            bool fin = true;
            for (int c = 0; c < 4; ++c) m[c] = C(x[c]), fin &= Fin(x[c]);
            Corrupt(j1, m, j2, out);
            for (int c = 0; c < 4; ++c) x[c] = fin ? cf(out[c]) : cf(std::nanf(""), 0);
          }
        }
      s.label("solutions applied");
    }
  };
  auto advance = [&] {
    buffer.AdvanceInterval();
    ++interval;
    while (!active.empty() && std::all_of(active.front().rows.begin(), active.front().rows.end(), [&](size_t r) { return of(rows[r]) < interval; })) {
      done.push_back(active.front().id);
      active.pop_front();
    }
    ++intervals_seen;
  };
  auto fetch = [&] {
    auto got = buffer.GetDone();
    CHECK_EQ(got.size(), done.size(), "buffers returned");
    for (size_t k = 0; k < got.size(); ++k) {
      CHECK_EQ(done[k], returned, "order of returned buffers");
      ++returned;
      check_unweighted(*got[k], by_id[done[k]]);
    }
    done.clear();
  };
  verify();
  while (next < rows.size()) {
    const bool none = empties > 0 && s.chance(1, 8);
    if (none) --empties;
    const size_t n = none ? 0 : std::min(rows.size() - next, s.n(1, 7));
    size_t cap = 0;
    for (size_t k = 0; k < n; ++k) cap += rows[next + k].nch * 4;
    auto b = std::make_unique<BdaBuffer>(cap, su::AllFields());
    Buf m{{}, next_id++};
    for (size_t k = 0; k < n; ++k) {
      const Row& r = rows[next + k];
      CHECK(b->AddRow(r.mid(), r.dt, r.dt, r.bl, r.nch, 4, next + k, r.v[0].data(), reinterpret_cast<const bool*>(r.f.data()), r.w.data(), nullptr), "add row");
      m.rows.push_back(next + k);
      last[r.bl] = r.t0 - start;
      if (k > 0 && of(r) != of(rows[next])) spanned = true;
    }
    for (size_t d = 0; d < ndir; ++d) {
      b->AddData(names[d]);
      for (size_t k = 0; k < n; ++k) std::copy(rows[next + k].v[d + 1].begin(), rows[next + k].v[d + 1].end(), b->GetData(k, names[d]));
    }
    next += n;
    buffer.AppendAndWeight(std::move(b), names, keep);
    active.push_back(m);
    by_id[m.id] = m;
    if (s.b()) verify();
    while (buffer.IntervalIsComplete() && s.chance(3, 4)) {
      verify();
      advance();
      if (s.b()) fetch();
    }
  }
  const int end = int((ntime + sol - 1) / sol);
  while (interval < end) {
    verify();
    advance();
    if (s.b()) fetch();
  }
  fetch();
  CHECK_EQ(returned, next_id, "every buffer is returned once");
  CHECK_EQ(buffer.BufferCount(), size_t(0), "no active buffers left");
  CHECK(buffer.GetIntervalRows().empty(), "no rows left");
  s.nontrivial(solved > 1 && intervals_seen > 1);
  if (spanned) s.label("buffer spans intervals");
}

PROP("P35.bda_order", 600, 20000) {
  const double len = double(s.n(1, 4)), start = s.pick({0.0, 4.5e9});
  BdaSolverBuffer buffer(start, len, 2);
  const int back = s.n(0, 4), first = s.n(0, 6);
  const std::vector<float> w(4, 1.0f);
  const bool f[4] = {};
  const std::vector<cf> v(4, cf(1, 0));
  auto add = [&](int interval, double offset) {
    auto b = std::make_unique<BdaBuffer>(4, su::AllFields());
    const double t0 = start + interval * len + offset;
    CHECK(b->AddRow(t0 + 0.125, 0.25, 0.25, 1, 1, 4, 0, v.data(), f, w.data(), nullptr), "row");
    b->AddData("m");
    std::copy(v.begin(), v.end(), b->GetData("m"));
    buffer.AppendAndWeight(std::move(b), {"m"}, false);
  };
  add(first, 0.25 * s.n(0, 3));
  const int second = std::max(0, first - back);
  const bool thrown = vpt::Throws([&] { add(second, 0.25 * s.n(0, 3)); });
  if (first - second >= 2) CHECK(thrown, "a row ", first - second, " intervals before an earlier one is rejected");
  if (first == second) CHECK(!thrown, "ordered rows are accepted");
  s.nontrivial(first - second >= 2);
  if (!thrown && s.b()) {
    buffer.Clear();
    CHECK_EQ(buffer.BufferCount(), size_t(0), "cleared");
    CHECK(buffer.GetIntervalRows().empty() && buffer.GetDone().empty(), "cleared");
  }
}

VPT_MAIN
