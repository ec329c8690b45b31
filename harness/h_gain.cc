// P34 gain solvers.
#include "gain_util.h"

#include "ddecal/constraints/AmplitudeOnlyConstraint.h"
#include "ddecal/constraints/AntennaConstraint.h"
#include "ddecal/gain_solvers/DiagonalAntennaSolver.h"
#include "ddecal/gain_solvers/DiagonalLowRankSolver.h"
#include "ddecal/gain_solvers/DiagonalSolver.h"
#include "ddecal/gain_solvers/FullJonesSolver.h"
#include "ddecal/gain_solvers/HybridSolver.h"
#include "ddecal/gain_solvers/IterativeDiagonalSolver.h"
#include "ddecal/gain_solvers/IterativeFullJonesSolver.h"
#include "ddecal/gain_solvers/IterativeScalarSolver.h"
#include "ddecal/gain_solvers/ScalarSolver.h"

using namespace gu;
using namespace dp3::ddecal;
using aocommon::MC2x2F;
using aocommon::MC2x2FDiag;

namespace {
const char* kNames[] = {"scalar", "diagonal", "full-jones", "iterative scalar", "iterative diagonal", "iterative full-jones"};

std::unique_ptr<SolverBase> Make(Kind k, size_t corr) {
  switch (k) {
    case kScalar: return std::make_unique<ScalarSolver>();
    case kDiagonal: return std::make_unique<DiagonalSolver>();
    case kFull: return std::make_unique<FullJonesSolver>();
    case kItScalar:
      if (corr == 1) return std::make_unique<IterativeScalarSolver<cf>>();
      if (corr == 2) return std::make_unique<IterativeScalarSolver<MC2x2FDiag>>();
      return std::make_unique<IterativeScalarSolver<MC2x2F>>();
    case kItDiagonal:
      if (corr == 2) return std::make_unique<IterativeDiagonalSolver<MC2x2FDiag>>();
      return std::make_unique<IterativeDiagonalSolver<MC2x2F>>();
    default: return std::make_unique<IterativeFullJonesSolver>();
  }
}

SolverBase::SolveResult Run(SolverBase& solver, const Problem& p, size_t corr, bool keep, bool linear, Sols& sols) {
  std::vector<DPBuffer> b = Weighted(p, keep, linear);
  if (corr == 1)
    return solver.Solve(UniSolveData(std::move(b), p.names, p.ncb, p.nant, p.nsol, p.a1, p.a2), sols, 0.0);
  if (corr == 2)
    return solver.Solve(DuoSolveData(std::move(b), p.names, p.ncb, p.nant, p.nsol, p.a1, p.a2), sols, 0.0);
  return solver.Solve(FullSolveData(std::move(b), p.names, p.ncb, p.nant, p.nsol, p.a1, p.a2), sols, 0.0);
}

std::vector<size_t> NSols(const Problem& p) {
  std::vector<size_t> r;
  for (size_t d = 0; d < p.ndir; ++d) r.push_back(p.NSol(d));
  return r;
}

void Compare(Src& s, const Sols& got, const Sols& want, double tol, const char* what) {
  for (size_t b = 0; b < want.size(); ++b) {
    CHECK_EQ(got[b].size(), want[b].size(), "number of solutions");
    for (size_t i = 0; i < want[b].size(); ++i) {
      if (!Fin(want[b][i])) {
        CHECK(!Fin(got[b][i]), what, ": expected no solution, block", b, "index", i, "got", got[b][i]);
        continue;
      }
      CHECK(std::abs(got[b][i] - want[b][i]) <= tol * (0.3 + std::abs(want[b][i])), what, "block", b, "index", i, "got", got[b][i], "expected", want[b][i]);
    }
  }
}

void Note(Src& s, const Problem& p) {
  s.note("antennas", p.nant);
  s.note("baselines", p.nbl);
  s.note("channels", p.nch);
  s.note("blocks", p.ncb);
  s.note("times", p.ntime);
  s.note("directions", p.ndir);
  s.note("subsolutions", p.NSub());
}

struct Setup {
  Kind kind;
  size_t corr = 4;
  Problem p;
};
Setup GenSetup(Src& s) {
  Setup u;
  u.kind = Kind(s.n(6));
  if (u.kind == kItScalar) u.corr = s.pick<size_t>({4, 2, 1});
  if (u.kind == kItDiagonal) u.corr = s.pick<size_t>({4, 2});
  Opt o;
  o.dd_intervals = Iterative(u.kind) && s.chance(2, 3);
  o.matrix_weight = NPol(u.kind) == 4;
  u.p = Gen(s, o);
  s.label(kNames[u.kind]);
  s.note("solver", kNames[u.kind]);
  s.note("corr", u.corr);
  Note(s, u.p);
  return u;
}
}  // namespace

// A given number of iterations, on noisy data: equals the reference.
PROP("P34.iterations", 800, 30000) {
  Setup u = GenSetup(s);
  Problem& p = u.p;
  const size_t npol = NPol(u.kind);
  const bool phase_only = npol < 4 && s.chance(1, 3);
  SetData(p, GenSols(s, p, npol, 0.3), npol, s.pick({0.0, 0.2}), s);
  if (s.chance(1, 5)) p.data[s.n(p.data.size())] = cf(INFINITY, 0);
  Sols cur = GenSols(s, p, npol, 0.2, phase_only);
  if (s.chance(1, 5)) {
    auto& v = cur[s.n(p.ncb)];
    v[s.n(v.size())] = cd(NAN, s.b() ? 0 : NAN);
    s.label("non-finite initial solution");
  }
  const double step = s.pick({1.0, 0.2, 0.5, 0.9});
  const size_t n = s.n(1, 4);
  s.note("iterations", n);
  s.note("step", step);
  s.note("phase only", phase_only);
  auto solver = Make(u.kind, u.corr);
  solver->SetAccuracy(-1);
  solver->SetStepSize(step);
  solver->SetPhaseOnly(phase_only);
  solver->SetMaxIterations(n);
  solver->SetMinIterations(0);
  if (s.b()) solver->SetDetectStalling(false, 0);
  const int con = int(s.n(4));
  std::set<size_t> group;
  if (con == 1) solver->AddConstraint(std::make_unique<AmplitudeOnlyConstraint>());
  if (con == 2) {
    for (size_t a = 0; a < p.nant; ++a)
      if (s.b()) group.insert(a);
    auto c = std::make_unique<AntennaConstraint>();
    c->SetAntennaSets({group});
    solver->AddConstraint(std::move(c));
  }
  solver->Initialize(p.nant, NSols(p), p.ncb);
  CHECK_EQ(solver->NSolutionPolarizations(), npol, "polarizations");
  Sols got = cur;
  double cond = 1;
  bool unsure = false;
  for (size_t k = 0; k < n; ++k) {
    MakeFinite(cur, npol);
    cur = gu::Step(cur, Iterate(p, u.kind, u.corr, cur, cond), step, phase_only, unsure);
    if (con == 1)
      for (auto& v : cur)
        for (cd& x : v) x = Fin(x) ? cd(std::abs(x)) : x;
    if (con == 2 && !group.empty())
      for (auto& v : cur) {
        const size_t m = p.NSub() * npol;
        for (size_t j = 0; j < m; ++j) {
          cd sum = 0;
          size_t c = 0;
          for (size_t a : group)
            if (Fin(v[a * m + j])) sum += v[a * m + j], ++c;
          for (size_t a : group) v[a * m + j] = c ? sum / double(c) : cd(NAN, NAN);
        }
      }
    double big = 0;
    for (auto& v : cur)
      for (cd x : v)
        if (Fin(x)) big = std::max(big, std::abs(x));
    if (big > 6) throw vpt::Discard{};
  }
  if (cond > 12 || unsure) throw vpt::Discard{};
  const auto r = Run(*solver, p, u.corr, s.b(), false, got);
  CHECK_EQ(r.iterations, n + 1, "iterations of a solve that did not converge");
  Compare(s, got, cur, 1e-3 * std::pow(1 + 0.05 * cond, double(n)), "solution");
  s.nontrivial(p.ndir > 1 || p.ncb > 1 || n > 1);
}

// Noiseless data: the gains behind it are a solution, and convergence is found
// where the reference finds it.
PROP("P34.convergence", 500, 20000) {
  Setup u = GenSetup(s);
  Problem& p = u.p;
  const size_t npol = NPol(u.kind);
  const bool phase_only = npol < 4 && s.chance(1, 4);
  const Sols truth = GenSols(s, p, npol, 0.25, phase_only);
  SetData(p, truth, npol, 0, s);
  const bool at_truth = s.chance(1, 3);
  Sols cur = at_truth ? truth : GenSols(s, p, npol, 0.2, phase_only);
  const double step = s.pick({0.2, 0.5, 0.4});
  const double accuracy = s.pick({1e-2, 3e-2, 0.1, 0.3});
  const size_t max = s.n(1, 12), min = s.chance(1, 3) ? s.n(0, 6) : 0;
  s.note("accuracy", accuracy);
  s.note("max", max);
  s.note("min", min);
  auto solver = Make(u.kind, u.corr);
  solver->SetAccuracy(accuracy);
  solver->SetStepSize(step);
  solver->SetPhaseOnly(phase_only);
  solver->SetMaxIterations(max);
  solver->SetMinIterations(min);
  solver->Initialize(p.nant, NSols(p), p.ncb);
  Sols got = cur;
  double cond = 1;
  bool unsure = false, conv = false;
  size_t k = 0;
  do {
    Sols old = cur;
    MakeFinite(old, npol);
    cur = gu::Step(old, Iterate(p, u.kind, u.corr, old, cond), step, phase_only, unsure);
    const double mag = Magnitude(old, cur, npol, step);
    if (std::abs(mag - accuracy) < 0.05 * accuracy) unsure = true;
    conv = mag <= accuracy;
    ++k;
    double big = 0;
    for (auto& v : cur)
      for (cd x : v)
        if (Fin(x)) big = std::max(big, std::abs(x));
    if (big > 6) unsure = true;
  } while (!unsure && (k < min || (k < max && !conv)));
  if (cond > 10 || unsure) throw vpt::Discard{};
  const auto r = Run(*solver, p, u.corr, s.b(), false, got);
  CHECK_EQ(r.iterations, conv ? k : k + 1, "number of iterations");
  Compare(s, got, cur, 2e-3 * (1 + 0.02 * double(k) * cond), "solution");
  if (at_truth) {
    Sols want = truth;  // antennas without visibilities have no solution
    for (size_t b = 0; b < want.size(); ++b)
      for (size_t i = 0; i < want[b].size(); ++i)
        if (!Fin(cur[b][i])) want[b][i] = cd(NAN, NAN);
    bool dead = false;
    for (auto& v : want)
      for (cd x : v) dead |= !Fin(x);
    if (!dead) Compare(s, got, truth, 2e-3 * (1 + 0.02 * double(k) * cond), "true gains");
    s.label("starts at the true gains");
  }
  if (conv) s.label("converged");
  s.nontrivial(k > 1);
}

// The hybrid solver runs its stages one after another within one budget.
PROP("P34.hybrid", 250, 8000) {
  const bool full = s.chance(1, 3);
  const size_t npol = full ? 4 : s.pick<size_t>({1, 2});
  Opt o;
  o.matrix_weight = full;
  o.junk = false;
  Problem p = Gen(s, o);
  Note(s, p);
  SetData(p, GenSols(s, p, npol, 0.25), npol, 0, s);
  const size_t stages = s.n(1, 4);
  const Kind a = npol == 1 ? kScalar : npol == 2 ? kDiagonal : kFull, b = Kind(a + 3);
  struct St { Kind kind; size_t max; double acc, step; };
  std::vector<St> st;
  for (size_t i = 0; i < stages; ++i)
    st.push_back({s.b() ? a : b, s.n(1, 12), s.pick({0.0, 1e-2, 0.05, 0.3}), s.pick({0.2, 0.5})});
  const size_t budget = s.n(1, 30);
  const bool stop = s.b();
  auto mk = [&](const St& x) {
    auto r = Make(x.kind, 4);
    r->SetMaxIterations(x.max);
    r->SetAccuracy(x.acc);
    r->SetStepSize(x.step);
    r->SetDetectStalling(false, 0);
    return r;
  };
  HybridSolver h;
  for (const St& x : st) h.AddSolver(mk(x));
  h.SetMaxIterations(budget);
  h.SetStopOnConvergence(stop);
  h.Initialize(p.nant, NSols(p), p.ncb);
  CHECK_EQ(h.NSolutionPolarizations(), npol, "polarizations");
  CHECK_EQ(h.ConstraintSolvers().size(), stages, "solvers");
  CHECK(vpt::Throws([&] { h.AddSolver(Make(npol == 1 ? kDiagonal : kScalar, 4)); }), "solver with other polarizations accepted");
  const Sols start = GenSols(s, p, npol, 0.15);
  Sols got = start, want = start;
  const int times = s.chance(1, 3) ? 2 : 1;
  for (int rep = 0; rep < times; ++rep) {
    got = want = start;
    const auto r = Run(h, p, 4, false, false, got);
    size_t left = budget, total = 0, reported = 0;
    bool conv = false;
    for (const St& x : st) {
      auto one = mk(x);
      const size_t max = std::min(x.max, left);
      one->SetMaxIterations(max);
      one->Initialize(p.nant, NSols(p), p.ncb);
      const auto q = Run(*one, p, 4, false, false, want);
      conv = q.iterations <= max;
      const size_t used = std::min(q.iterations, max);
      left -= used;
      total += used;
      reported += q.iterations;
      if (conv && stop) break;
    }
    CHECK(total <= budget, "stages stay within the budget");
    Compare(s, got, want, 1e-4, "solution");
    CHECK_EQ(r.iterations, conv ? reported : budget + 1, "number of iterations");
    s.nontrivial(stages > 1);
    if (conv) s.label("last stage converged");
  }
}

// The low-rank and antenna-based solvers: true gains are a fixed point, up to
// one phase per direction.
PROP("P34.lowrank", 200, 6000) {
  const bool lr = s.chance(2, 3);
  s.note("low rank", lr);
  Opt o;
  o.junk = lr && s.b();
  o.max_ant = 6;
  o.max_dir = lr ? 3 : 2;
  o.matrix_weight = true;
  Problem p = Gen(s, o);
  // Weights of zero and flags leave elements of the correlation matrix empty.
  Note(s, p);
  const size_t nsub = p.NSub();
  const Sols truth = GenSols(s, p, 2, 0.6);
  SetData(p, truth, 2, 0, s);
  std::unique_ptr<SolverBase> solver;
  if (lr) solver = std::make_unique<DiagonalLowRankSolver>(s.n(2, 12), s.n(4, 12));
  else solver = std::make_unique<DiagonalAntennaSolver>();
  const size_t max = s.n(1, 3);
  const double step = s.chance(1, 3) && p.ndir == 1 ? 1.0 : s.pick({0.3, 0.6});
  solver->SetMaxIterations(max);
  solver->SetStepSize(step);
  const bool loose = s.b();
  solver->SetAccuracy(loose ? 0.5 : -1);
  s.note("accuracy", loose ? 0.5 : -1);
  solver->Initialize(p.nant, NSols(p), p.ncb);
  Sols cur = truth;
  if (lr)  // the phase reference is the first gain
    for (auto& v : cur)
      for (size_t u = 0; u < nsub; ++u) {
        const cd ph = std::conj(v[u * 2]) / std::abs(v[u * 2]);
        for (size_t a = 0; a < p.nant; ++a)
          for (int q = 0; q < 2; ++q) v[(a * nsub + u) * 2 + q] *= ph;
      }
  Sols got = cur;
  const auto r = Run(*solver, p, 4, s.b(), true, got);
  CHECK_EQ(r.iterations, loose ? 1 : max + 1, "iterations when starting at the solution");
  s.label(lr ? "low-rank" : "antenna-based");
  // Compare the visibilities that the gains predict.
  for (size_t b = 0; b < p.ncb; ++b)
    for (size_t bl = 0; bl < p.nbl; ++bl)
      for (size_t u = 0; u < nsub; ++u)
        for (int q = 0; q < 2; ++q)
          for (int q2 = 0; q2 < 2; ++q2) {
            if (p.a1[bl] == p.a2[bl]) continue;
            const cd g = got[b][(p.a1[bl] * nsub + u) * 2 + q] * std::conj(got[b][(p.a2[bl] * nsub + u) * 2 + q2]);
            const cd w = cur[b][(p.a1[bl] * nsub + u) * 2 + q] * std::conj(cur[b][(p.a2[bl] * nsub + u) * 2 + q2]);
            CHECK(std::abs(g - w) < 0.02 * (1 + std::abs(w)), "gain product of baseline", bl, "sub solution", u, "got", g, "expected", w);
          }
  s.nontrivial(p.ndir > 1 || p.ncb > 1);
}

VPT_MAIN
