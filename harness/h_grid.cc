// P22 axes and grids of the parameter database, P23 evaluation and updating of
// parameters on those grids.
#include "vpt.h"

#include <algorithm>
#include <map>
#include <memory>
#include <set>

#include "parmdb/Axis.h"
#include "parmdb/AxisMapping.h"
#include "parmdb/Box.h"
#include "parmdb/Grid.h"
#include "parmdb/Parm.h"
#include "parmdb/ParmCache.h"
#include "parmdb/ParmDB.h"
#include "parmdb/ParmDBCasa.h"
#include "parmdb/ParmDBLocker.h"
#include "parmdb/ParmSet.h"
#include "parmdb/ParmValue.h"

using namespace dp3::parmdb;
using casacore::Array;
using casacore::IPosition;
using vpt::Src;

// ------------------------------------------------------------------ cells
namespace {
struct Cells {
  std::vector<double> lo, up;
  double unit = 1;
  size_t size() const { return lo.size(); }
  double mid(size_t i) const { return (lo[i] + up[i]) / 2; }
  bool gaps() const {
    for (size_t i = 1; i < size(); ++i)
      if (up[i - 1] != lo[i]) return true;
    return false;
  }
  bool equal() const {
    for (size_t i = 1; i < size(); ++i)
      if (up[i] - lo[i] != up[0] - lo[0]) return false;
    return true;
  }
};

// All values are exactly representable, so that the expected results are exact.
Cells GenCells(Src& s, size_t n, bool allow_gaps) {
  Cells c;
  double start = 0;
  switch (s.n(5)) {
    case 0: start = 0; c.unit = 1; break;
    case 1: start = -8; c.unit = 0.25; break;
    case 2: start = 4.8e9; c.unit = 0.25; break;   // seconds
    case 3: start = 1.5e8; c.unit = 1024; break;   // Hz
    default: start = -1000; c.unit = 64;
  }
  const bool regular = s.chance(1, 2);
  const double w0 = c.unit * s.i(1, 4);
  const bool gaps = allow_gaps && s.chance(1, 3);
  double x = start;
  for (size_t i = 0; i < n; ++i) {
    if (gaps && i > 0 && s.chance(1, 2)) x += c.unit * s.i(1, 3);
    const double w = regular ? w0 : c.unit * s.i(1, 4);
    c.lo.push_back(x);
    x += w;
    c.up.push_back(x);
  }
  return c;
}

Axis::ShPtr MakeOrdered(Src& s, const Cells& c) {
  if (s.b()) return std::make_shared<OrderedAxis>(c.lo, c.up, true);
  std::vector<double> cen, wid;
  for (size_t i = 0; i < c.size(); ++i) {
    cen.push_back(c.mid(i));
    wid.push_back(c.up[i] - c.lo[i]);
  }
  return std::make_shared<OrderedAxis>(cen, wid);
}

Axis::ShPtr Make(Src& s, const Cells& c) {
  if (!c.gaps() && c.equal() && s.chance(2, 3)) {
    if (s.b()) return std::make_shared<RegularAxis>(c.lo[0], c.up[0] - c.lo[0], c.size());
    return std::make_shared<RegularAxis>(c.lo[0], c.up.back(), c.size(), true);
  }
  return MakeOrdered(s, c);
}

void CheckAxis(const Axis& a, const Cells& c) {
  CHECK_EQ(a.size(), c.size());
  for (size_t i = 0; i < c.size(); ++i) {
    CHECK_EQ(a.lower(i), c.lo[i], "cell", i);
    CHECK_EQ(a.upper(i), c.up[i], "cell", i);
    CHECK_EQ(a.center(i), c.mid(i), "cell", i);
    CHECK_EQ(a.width(i), c.up[i] - c.lo[i], "cell", i);
  }
  CHECK(a.lowers() == c.lo && a.uppers() == c.up);
  CHECK_EQ(a.centers().size(), c.size());
  CHECK_EQ(a.widths().size(), c.size());
  CHECK_EQ(a.start(), c.lo.front());
  CHECK_EQ(a.end(), c.up.back());
  CHECK_EQ(a.range().first, c.lo.front());
  CHECK_EQ(a.range().second, c.up.back());
}

void CheckDefaultAxis(const Axis& a) {
  CHECK_EQ(a.size(), 1u);
  CHECK_EQ(a.start(), -1e30);
  CHECK_EQ(a.end(), 1e30);
}

Cells Slice(const Cells& c, size_t a, size_t b) {  // [a, b)
  Cells r;
  r.unit = c.unit;
  r.lo.assign(c.lo.begin() + a, c.lo.begin() + b);
  r.up.assign(c.up.begin() + a, c.up.begin() + b);
  return r;
}

// A point on an edge, inside a cell, in a gap or outside.
double GenPoint(Src& s, const Cells& c) {
  const size_t i = s.n(c.size());
  switch (s.n(6)) {
    case 0: return c.lo[i];
    case 1: return c.up[i];
    case 2: return c.mid(i);
    case 3: return c.lo[i] - c.unit / 4;
    case 4: return c.up[i] + c.unit / 4;
    default: return c.lo[0] - c.unit + (c.up.back() - c.lo[0] + 2 * c.unit) * (s.draw(64) / 64.0);
  }
}

std::pair<size_t, bool> RefFind(const Cells& c, double x, bool right) {
  for (size_t i = 0; i < c.size(); ++i) {
    if (right ? (x >= c.lo[i] && x < c.up[i]) : (x > c.lo[i] && x <= c.up[i])) return {i, true};
    if (right ? c.lo[i] > x : c.lo[i] >= x) return {i, false};
  }
  return {c.size(), false};
}
std::string Desc(const Cells& c) {
  std::string r;
  for (size_t i = 0; i < c.size(); ++i) r += "[" + vpt::Show(c.lo[i]) + "," + vpt::Show(c.up[i]) + "]";
  return r;
}
}  // namespace

// -------------------------------------------------------------------- P22
PROP("P22.axis_find", 4000, 40000) {
  Cells c = GenCells(s, s.i(1, 8), true);
  Axis::ShPtr a = Make(s, c);
  s.note("cells", Desc(c));
  CheckAxis(*a, c);
  CheckAxis(*a->clone(), c);
  CHECK(*a == *a->clone());
  if (c.gaps() || !c.equal()) CHECK(!a->isRegular());
  // Rounding of the edges does not matter.
  if (!a->isRegular() && s.chance(1, 3)) {
    std::vector<double> lo = c.lo, up = c.up;
    for (auto& v : lo)
      if (v != 0 && s.b()) v = std::nextafter(v, s.b() ? 1e30 : -1e30);
    for (auto& v : up)
      if (v != 0 && s.b()) v = std::nextafter(v, s.b() ? 1e30 : -1e30);
    a = std::make_shared<OrderedAxis>(lo, up, true);
    s.label("rounded edges");
  }
  const int nq = s.i(1, 6);
  bool edge = false;
  for (int q = 0; q < nq; ++q) {
    const double x = GenPoint(s, c);
    const bool right = s.b();
    const size_t hint = s.n(c.size() + 3);
    for (double e : c.lo) edge |= x == e;
    const auto want = RefFind(c, x, right);
    const auto got = a->find(x, right, hint);
    CHECK_EQ(got.first, want.first, "x", x, "right", right, "hint", hint);
    CHECK_EQ(got.second, want.second, "x", x, "right", right, "hint", hint);
    const bool threw = vpt::Throws([&] { CHECK_EQ(a->locate(x, right, hint), want.first); });
    CHECK_EQ(threw, !want.second);
    if (!edge) CHECK_EQ(a->find(x).first, RefFind(c, x, true).first);
  }
  s.label(c.gaps() ? "gaps" : "consecutive");
  s.nontrivial(c.size() > 1 && edge);
}

PROP("P22.axis_subset", 4000, 40000) {
  Cells c = GenCells(s, s.i(1, 8), true);
  Axis::ShPtr a = Make(s, c);
  double x1 = GenPoint(s, c), x2 = GenPoint(s, c);
  if (x1 > x2) std::swap(x1, x2);
  if (x1 == x2) x2 += c.unit / 2;
  s.note("cells", Desc(c));
  s.note("from", x1);
  s.note("to", x2);
  // The cells of which some part lies between the values.
  size_t f = c.size(), l = 0;
  for (size_t i = 0; i < c.size(); ++i)
    if (c.up[i] > x1 && c.lo[i] < x2) {
      f = std::min(f, i);
      l = i;
    }
  size_t index = 999;
  Axis::ShPtr sub = a->subset(x1, x2, index);
  Axis::ShPtr sub2 = a->subset(x1, x2);
  CHECK(*sub == *sub2);
  if (f == c.size()) {
    CheckDefaultAxis(*sub);
    s.label("none");
  } else {
    CheckAxis(*sub, Slice(c, f, l + 1));
    CHECK_EQ(index, f);
    s.nontrivial(l - f + 1 < c.size());
  }
  // By index.
  const size_t i1 = s.n(c.size()), i2 = s.n(c.size() + 2);
  Axis::ShPtr si = a->subset(i1, i2);
  if (i1 > std::min(i2, c.size() - 1))
    CheckDefaultAxis(*si);
  else
    CheckAxis(*si, Slice(c, i1, std::min(i2, c.size() - 1) + 1));
  // Compressing joins groups of cells.
  const size_t factor = s.i(1, int(c.size()) + 2);
  Cells g;
  for (size_t i = 0; i < c.size(); i += factor) {
    g.lo.push_back(c.lo[i]);
    g.up.push_back(c.up[std::min(i + factor, c.size()) - 1]);
  }
  CheckAxis(*a->compress(factor), g);
  CheckAxis(*a, c);
}

PROP("P22.axis_combine", 4000, 40000) {
  // Two pieces of one long axis.
  Cells c = GenCells(s, s.i(2, 12), true);
  const size_t n = c.size();
  size_t a1 = s.n(n), b1 = s.i(a1 + 1, n), a2 = s.n(n), b2 = s.i(a2 + 1, n);
  Cells c1 = Slice(c, a1, b1), c2 = Slice(c, a2, b2);
  const bool overlap = a1 < b2 && a2 < b1;
  const bool mismatch = overlap && s.chance(1, 4);
  if (mismatch) {
    // Shift an inner edge of a shared cell, or split a shared cell.
    const size_t k = s.i(std::max(a1, a2), std::min(b1, b2) - 1) - a2;
    if (s.b() && c2.size() > 1) {
      if (k + 1 < c2.size() && c2.up[k] == c2.lo[k + 1] && std::max(a1, a2) < a2 + k + 1 && a2 + k + 1 < b1) {
        c2.up[k] -= c2.unit / 4;
        c2.lo[k + 1] -= c2.unit / 4;
      } else {
        throw vpt::Discard{};
      }
    } else {
      const double m = c2.mid(k);
      c2.lo.insert(c2.lo.begin() + k + 1, m);
      c2.up.insert(c2.up.begin() + k, m);
    }
  }
  s.note("this", Desc(c1));
  s.note("that", Desc(c2));
  Axis::ShPtr x1 = Make(s, c1), x2 = Make(s, c2);
  int s1 = -1, e1 = -1, s2 = -1, e2 = -1;
  if (mismatch) {
    CHECK(vpt::Throws([&] { x1->combine(*x2, s1, e1, s2, e2); }));
    CHECK(!x1->checkIntervals(*x2));
    s.nontrivial("mismatch");
    return;
  }
  Axis::ShPtr r = x1->combine(*x2, s1, e1, s2, e2);
  Cells want;
  if (overlap) {
    want = Slice(c, std::min(a1, a2), std::max(b1, b2));
    CHECK_EQ(s1, int(a1 - std::min(a1, a2)));
    CHECK_EQ(s2, int(a2 - std::min(a1, a2)));
  } else {
    const Cells& l = a1 < a2 ? c1 : c2;
    const Cells& h = a1 < a2 ? c2 : c1;
    want = l;
    if (l.up.back() != h.lo.front()) {
      want.lo.push_back(l.up.back());
      want.up.push_back(h.lo.front());
    }
    want.lo.insert(want.lo.end(), h.lo.begin(), h.lo.end());
    want.up.insert(want.up.end(), h.up.begin(), h.up.end());
    CHECK_EQ(s1, a1 < a2 ? 0 : int(want.size() - c1.size()));
    CHECK_EQ(s2, a1 < a2 ? int(want.size() - c2.size()) : 0);
  }
  CHECK_EQ(e1 - s1, int(c1.size()));
  CHECK_EQ(e2 - s2, int(c2.size()));
  CheckAxis(*r, want);
  CHECK(x1->checkIntervals(*x2));
  CHECK(x2->checkIntervals(*x1));
  // Both axes are found back at the reported places.
  for (int i = s1; i < e1; ++i) CHECK_EQ(r->lower(i), c1.lo[i - s1]);
  for (int i = s2; i < e2; ++i) CHECK_EQ(r->upper(i), c2.up[i - s2]);
  s.label(overlap ? "overlap" : "disjoint");
  s.nontrivial(c1.size() != want.size() && c2.size() != want.size());
}

PROP("P22.axis_mapping", 4000, 40000) {
  Cells to = GenCells(s, s.i(1, 8), true);
  Cells from;
  if (s.chance(1, 4)) {
    from = GenCells(s, s.i(1, 12), true);
  } else {
    // Start somewhere around the other axis, with other widths.
    double x = to.lo[0] + to.unit * s.i(-3, 3) + to.unit / 16;
    const size_t n = s.i(1, 14);
    from.unit = to.unit / 8;
    for (size_t i = 0; i < n; ++i) {
      from.lo.push_back(x);
      x += to.unit * s.i(1, 16) / 4;
      from.up.push_back(x);
      if (s.chance(1, 5)) x += to.unit * s.i(1, 8);
    }
  }
  Axis::ShPtr f = Make(s, from), t = Make(s, to);
  s.note("from", Desc(from));
  s.note("to", Desc(to));
  AxisMappingCache cache;
  const bool cached = s.b();
  if (cached) {
    // Other mappings in the cache do not interfere.
    cache.get(*t, *f);
    cache.get(*f, *f);
  }
  const AxisMapping direct(*f, *t);
  const AxisMapping& m = cached ? cache.get(*f, *t) : direct;
  if (cached) {
    const size_t sz = cache.size();
    CHECK(&cache.get(*f, *t) == &m);
    CHECK_EQ(cache.size(), sz);
  }
  CHECK_EQ(m.size(), from.size());
  std::vector<int> want, borders;
  for (size_t i = 0; i < from.size(); ++i) {
    const size_t k = std::min(RefFind(to, from.mid(i), true).first, to.size() - 1);
    if (i > 0 && int(k) != want.back()) borders.push_back(i);
    want.push_back(k);
    CHECK_EQ(m[i], int(k), "cell", i);
    CHECK_EQ(*(m.begin() + i), int(k));
    CHECK_NEAR(m.getScaledCenters()[i], (from.mid(i) - to.lo[k]) / (to.up[k] - to.lo[k]), 1e-12);
  }
  CHECK(m.end() - m.begin() == std::ptrdiff_t(from.size()));
  borders.push_back(from.size());
  CHECK(m.getBorders() == borders);
  s.nontrivial(borders.size() > 1);
}

PROP("P22.box", 4000, 40000) {
  auto gen = [&](double& a, double& b) {
    a = s.i(-4, 4);
    b = a + s.i(1, 5);
  };
  double ax1, ax2, ay1, ay2, bx1, bx2, by1, by2;
  gen(ax1, ax2), gen(ay1, ay2), gen(bx1, bx2), gen(by1, by2);
  const Box a = s.b() ? Box(Point(ax1, ay1), Point(ax2, ay2))
                      : Box((ax1 + ax2) / 2, ax2 - ax1, (ay1 + ay2) / 2, ay2 - ay1);
  const Box b = s.b() ? Box(std::vector<double>{bx1, by1, bx2, by2}) : Box(bx1, bx2, by1, by2, true);
  CHECK_EQ(a.lowerX(), ax1);
  CHECK_EQ(a.upperX(), ax2);
  CHECK_EQ(a.lowerY(), ay1);
  CHECK_EQ(a.upperY(), ay2);
  CHECK_EQ(a.widthX(), ax2 - ax1);
  CHECK_EQ(a.widthY(), ay2 - ay1);
  CHECK(!a.empty());
  CHECK(Box().empty());
  CHECK(a == a && !(a != a) && !(a < a) && !(a > a));
  CHECK_EQ(a == b, ax1 == bx1 && ax2 == bx2 && ay1 == by1 && ay2 == by2);
  CHECK_EQ(a < b, ay1 < by1 || (ay1 == by1 && ax1 < bx1));
  CHECK_EQ(a > b, b < a);
  // Membership of half-integer points decides intersection and containment.
  bool common = false, all = true;
  for (double x = -4.5; x < 10; x += 1)
    for (double y = -4.5; y < 10; y += 1) {
      const bool ina = x > ax1 && x < ax2 && y > ay1 && y < ay2;
      const bool inb = x > bx1 && x < bx2 && y > by1 && y < by2;
      common |= ina && inb;
      if (inb && !ina) all = false;
      const Box i = a & b;
      CHECK_EQ(x > i.lowerX() && x < i.upperX() && y > i.lowerY() && y < i.upperY(), ina && inb);
      const Box u = a | b;
      if (ina || inb) CHECK(x > u.lowerX() && x < u.upperX() && y > u.lowerY() && y < u.upperY());
    }
  CHECK_EQ(a.intersects(b), common);
  CHECK_EQ(b.intersects(a), common);
  CHECK_EQ((a & b).empty(), !common);
  CHECK_EQ(a.contains(b), all);
  CHECK((a | b).contains(a) && (a | b).contains(b));
  CHECK((a | b) == unite(b, a) && (a & b) == intersect(b, a));
  if (common) CHECK(a.contains(a & b) && b.contains(a & b));
  CHECK_EQ((a | b).lowerX(), std::min(ax1, bx1));
  CHECK_EQ((a | b).upperY(), std::max(ay2, by2));
  // Trailing values default to unlimited.
  const size_t k = s.n(5);
  std::vector<double> v = {bx1, by1, bx2, by2};
  v.resize(k);
  const Box d(v);
  CHECK_EQ(d.lowerX(), k > 0 ? bx1 : -1e30);
  CHECK_EQ(d.lowerY(), k > 1 ? by1 : -1e30);
  CHECK_EQ(d.upperX(), k > 2 ? bx2 : 1e30);
  CHECK_EQ(d.upperY(), k > 3 ? by2 : 1e30);
  s.nontrivial(common && !all);
}

PROP("P22.grid", 2500, 25000) {
  Cells cx = GenCells(s, s.i(1, 6), true), cy = GenCells(s, s.i(1, 6), true);
  const size_t nx = cx.size(), ny = cy.size();
  s.note("x", Desc(cx));
  s.note("y", Desc(cy));
  std::vector<Box> boxes;
  for (size_t j = 0; j < ny; ++j)
    for (size_t i = 0; i < nx; ++i) boxes.push_back(Box(Point(cx.lo[i], cy.lo[j]), Point(cx.up[i], cy.up[j])));
  Grid g;
  switch (s.n(4)) {
    case 0: g = Grid(Make(s, cx), Make(s, cy)); break;
    case 1: g = Grid(boxes); break;
    case 2: {
      std::vector<Box> sh = boxes;
      s.shuffle(sh);
      g = Grid(sh, true);
      break;
    }
    default: {
      // Tiles of the grid, each a grid itself.
      std::vector<size_t> tx = {0}, ty = {0};
      while (tx.back() < nx) tx.push_back(s.i(tx.back() + 1, nx));
      while (ty.back() < ny) ty.push_back(s.i(ty.back() + 1, ny));
      std::vector<Grid> tiles;
      for (size_t j = 0; j + 1 < ty.size(); ++j)
        for (size_t i = 0; i + 1 < tx.size(); ++i)
          tiles.push_back(Grid(Make(s, Slice(cx, tx[i], tx[i + 1])), Make(s, Slice(cy, ty[j], ty[j + 1]))));
      const bool shuffled = s.b();
      if (shuffled) s.shuffle(tiles);
      g = Grid(tiles, shuffled);
      s.label("tiles");
    }
  }
  CHECK(!g.isDefault());
  CHECK_EQ(g.nx(), nx);
  CHECK_EQ(g.ny(), ny);
  CHECK_EQ(g.size(), nx * ny);
  CHECK(g.shape() == std::make_pair(nx, ny));
  CheckAxis(*g.getAxis(0), cx);
  CheckAxis(*g[1], cy);
  CHECK(g.getBoundingBox() == Box(Point(cx.lo[0], cy.lo[0]), Point(cx.up.back(), cy.up.back())));
  std::vector<Box> dom(1, Box(Point(-7, -7), Point(-6, -6)));
  g.toDomains(dom);
  CHECK_EQ(dom.size(), boxes.size() + 1);
  for (size_t k = 0; k < boxes.size(); ++k) {
    CHECK(dom[k + 1] == boxes[k]);
    const Grid::Location loc = g.getCellLocation(k);
    CHECK(loc.first == k % nx && loc.second == k / nx);
    CHECK_EQ(g.getCellId(loc), k);
    CHECK(g.getCell(k) == boxes[k] && g.getCell(loc) == boxes[k]);
    const Point mid = g.getCellCenter(loc);
    CHECK(mid == Point(cx.mid(loc.first), cy.mid(loc.second)));
    CHECK(g.locate(mid) == loc && g.locate(mid, false) == loc);
    CHECK(g.locate(boxes[k].lower(), true) == loc);
    CHECK(g.locate(boxes[k].upper(), false) == loc);
  }
  // Part of the grid.
  const size_t i1 = s.n(nx), i2 = s.i(i1, nx - 1), j1 = s.n(ny), j2 = s.i(j1, ny - 1);
  const Grid sub = g.subset(Grid::Location(i1, j1), Grid::Location(i2, j2));
  CheckAxis(*sub[0], Slice(cx, i1, i2 + 1));
  CheckAxis(*sub[1], Slice(cy, j1, j2 + 1));
  CHECK(g.getBoundingBox(Grid::Location(i1, j1), Grid::Location(i2, j2)) == sub.getBoundingBox());
  Grid::Location at(99, 99);
  const Box inner(Point(cx.lo[i1] + cx.unit / 4, cy.lo[j1]), Point(cx.up[i2], cy.up[j2] - cy.unit / 4));
  const Grid sub2 = g.subset(inner, at);
  CheckAxis(*sub2[0], Slice(cx, i1, i2 + 1));
  CheckAxis(*sub2[1], Slice(cy, j1, j2 + 1));
  CHECK(at == Grid::Location(i1, j1));
  CheckAxis(*g.subset(inner)[1], Slice(cy, j1, j2 + 1));
  CHECK(g.checkIntervals(sub) && sub.checkIntervals(g));
  // Iteration visits the cells of the part in order, each once.
  std::vector<Grid::Location> seen;
  for (CellIterator it(Grid::Location(i1, j1), Grid::Location(i2, j2)); !it.atEnd(); ++it) {
    CHECK(it->first == (*it).first);
    seen.push_back(*it);
    if (seen.size() > nx * ny) break;
  }
  CHECK_EQ(seen.size(), sub.size());
  for (size_t k = 0; k < seen.size(); ++k)
    CHECK(seen[k] == Grid::Location(i1 + k % sub.nx(), j1 + k / sub.nx()));
  // Cells of the part map back into the whole.
  AxisMappingCache cache;
  for (size_t k = 0; k < sub.size(); ++k) {
    const Grid::Location want = seen[k];
    CHECK(GridMapping::findLocation(cache, unsigned(k), sub, g) == want);
    CHECK(GridMapping::findLocation(cache, sub.getCellLocation(k), sub, g) == want);
    CHECK_EQ(GridMapping::findcellId(cache, k, sub, g), g.getCellId(want));
    CHECK_EQ(GridMapping::findCellId(cache, sub.getCellLocation(k), sub, g), g.getCellId(want));
  }
  // Nothing in, default out.
  CHECK(Grid().isDefault() && Grid(std::vector<Box>()).isDefault() && Grid(std::vector<Grid>()).isDefault());
  s.nontrivial(nx > 1 && ny > 1);
}

// ----------------------------------------- in-memory stand-in of the tables
namespace {
struct Store {
  std::map<std::string, int> ids;
  std::map<int, ParmValueSet> values;
  std::map<std::string, ParmValueSet> defs;
  int locked = 0, writes_unlocked = 0, alive = 0;
  std::vector<std::string> written;
  std::vector<std::vector<unsigned>> queries;
};
std::map<std::string, Store>& Stores() {
  static std::map<std::string, Store> m;
  return m;
}
std::map<const ParmDBCasa*, std::string>& NameOf() {
  static std::map<const ParmDBCasa*, std::string> m;
  return m;
}
Store& StoreOf(const ParmDBCasa* p) { return Stores()[NameOf()[p]]; }
}  // namespace

namespace dp3::parmdb {
ParmDBCasa::ParmDBCasa(const std::string& name, bool forceNew) {
  NameOf()[this] = name;
  if (forceNew) Stores()[name] = Store();
  ++StoreOf(this).alive;
}
ParmDBCasa::~ParmDBCasa() {
  --StoreOf(this).alive;
  NameOf().erase(this);
}
void ParmDBCasa::flush(bool) {}
void ParmDBCasa::lock(bool) { ++StoreOf(this).locked; }
void ParmDBCasa::unlock() { --StoreOf(this).locked; }
Box ParmDBCasa::getRange(const std::string&) const { return Box(); }
Box ParmDBCasa::getRange(const std::vector<std::string>&) const { return Box(); }
void ParmDBCasa::setDefaultSteps(const std::vector<double>& v) {
  setDefStep(0, v[0]);
  setDefStep(1, v[1]);
}
void ParmDBCasa::getValues(std::vector<ParmValueSet>& values, const std::vector<unsigned int>& nameIds,
                           const std::vector<ParmId>& parmIds, const Box&) {
  Store& st = StoreOf(this);
  st.queries.push_back(nameIds);
  for (size_t i = 0; i < nameIds.size(); ++i) values[parmIds[i]] = st.values[nameIds[i]];
}
void ParmDBCasa::putValues(const std::string& name, int& id, ParmValueSet& v) {
  Store& st = StoreOf(this);
  if (st.locked <= 0) ++st.writes_unlocked;
  st.written.push_back(name);
  if (id < 0) {
    id = st.ids.size();
    st.ids[name] = id;
  }
  st.values[id] = v;
}
void ParmDBCasa::deleteValues(const std::string&, const Box&) {}
void ParmDBCasa::getDefValues(ParmMap& r, const std::string&) {
  for (auto& d : StoreOf(this).defs) r.define(d.first, d.second);
}
void ParmDBCasa::putDefValue(const std::string& n, const ParmValueSet& v, bool) {
  StoreOf(this).defs[n] = v;
  clearDefFilled();
}
void ParmDBCasa::deleteDefValues(const std::string&) {}
std::vector<std::string> ParmDBCasa::getNames(const std::string&) {
  std::vector<std::string> r;
  for (auto& p : StoreOf(this).ids) r.push_back(p.first);
  return r;
}
int ParmDBCasa::getNameId(const std::string& n) {
  auto& ids = StoreOf(this).ids;
  auto it = ids.find(n);
  return it == ids.end() ? -1 : it->second;
}
void ParmDBCasa::clearTables() {}
void ParmDBCasa::fillDefMap(ParmMap& m) {
  for (auto& d : StoreOf(this).defs) m.define(d.first, d.second);
}
}  // namespace dp3::parmdb

// -------------------------------------------------------------------- P23
namespace {
Array<double> GenValues(Src& s, size_t nx, size_t ny) {
  Array<double> v(IPosition(2, nx, ny));
  for (size_t i = 0; i < nx * ny; ++i) v.data()[i] = s.chance(1, 8) ? 0.0 : s.sym(4);
  return v;
}
long double Poly(const Array<double>& c, long double x, long double y, long double* mag = nullptr) {
  long double r = 0, py = 1, m = 0;
  for (int j = 0; j < int(c.shape()[1]); ++j) {
    long double px = 1;
    for (int i = 0; i < int(c.shape()[0]); ++i) {
      r += c.data()[i + j * c.shape()[0]] * px * py;
      m += std::abs(c.data()[i + j * c.shape()[0]] * px * py);
      px *= x;
    }
    py *= y;
  }
  if (mag) *mag = m;
  return r;
}
// Predict cells around (or, if asked, within) the given cells.
Cells GenPredict(Src& s, const Cells& c, bool inside) {
  Cells p;
  p.unit = c.unit / 16;
  if (inside) {
    std::vector<double> e;
    const size_t n = s.i(1, 8);
    for (size_t k = 0; k <= n; ++k) e.push_back(c.lo[0] + (c.up.back() - c.lo[0]) * (s.draw(60) / 64.0 + 1.0 / 32));
    std::sort(e.begin(), e.end());
    e.erase(std::unique(e.begin(), e.end()), e.end());
    if (e.size() < 2) e = {c.lo[0], c.up[0]};
    for (size_t k = 0; k + 1 < e.size(); ++k) {
      p.lo.push_back(e[k]);
      p.up.push_back(e[k + 1]);
    }
    return p;
  }
  double x = c.lo[0] + c.unit * (s.i(-8, 8) / 4.0 + 1.0 / 32);
  const size_t n = s.i(1, 10);
  for (size_t i = 0; i < n; ++i) {
    p.lo.push_back(x);
    x += c.unit * s.i(1, 12) / 4;
    p.up.push_back(x);
  }
  return p;
}
size_t Nearest(const Cells& c, double x) { return std::min(RefFind(c, x, true).first, c.size() - 1); }
}  // namespace

PROP("P23.rescale", 4000, 40000) {
  const size_t nx = s.i(1, 5), ny = s.i(1, 5);
  ParmValue pv;
  const Array<double> coeff = GenValues(s, nx, ny);
  pv.setCoeff(coeff);
  auto dom = [&] {
    const double x = s.sym(10), y = s.sym(10);
    return Box(Point(x, y), Point(x + s.real(0.5, 8), y + s.real(0.5, 8)));
  };
  const Box from = s.chance(1, 8) ? Box() : dom();
  Box to = dom();
  if (s.chance(1, 3)) to = Box(Point(to.lowerX(), from.lowerY()), Point(to.upperX(), from.empty() ? to.upperY() : from.upperY()));
  if (!from.empty() && s.chance(1, 3)) to = Box(Point(from.lowerX(), to.lowerY()), Point(from.upperX(), to.upperY()));
  if (to.widthX() <= 0 || to.widthY() <= 0) throw vpt::Discard{};
  const bool done = pv.rescale(to.lowerX(), to.upperX(), to.lowerY(), to.upperY(), from);
  CHECK_EQ(int(pv.nx()), int(nx));
  CHECK_EQ(int(pv.ny()), int(ny));
  if (from.empty() || nx * ny == 1) CHECK(!done);
  if (!done)
    for (size_t i = 0; i < nx * ny; ++i) CHECK_EQ(pv.getValues().data()[i], coeff.data()[i]);
  if (from.empty()) return;
  for (int k = 0; k < 4; ++k) {
    const long double x = s.sym(15), y = s.sym(15);
    long double m1, m2;
    const long double v1 = Poly(coeff, (x - from.lowerX()) / from.widthX(), (y - from.lowerY()) / from.widthY(), &m1);
    const long double v2 = Poly(pv.getValues(), (x - to.lowerX()) / to.widthX(), (y - to.lowerY()) / to.widthY(), &m2);
    CHECK_NEAR(double(v1), double(v2), 1e-9 * double(1 + m1 + m2), "at", double(x), double(y));
  }
  s.label(done ? "rescaled" : "kept");
  s.nontrivial(nx > 1 && ny > 1);
}

PROP("P23.polynomial", 3000, 30000) {
  Cells cx = GenCells(s, s.i(1, 4), false), cy = GenCells(s, s.i(1, 4), false);
  Cells px = GenPredict(s, cx, s.b()), py = GenPredict(s, cy, s.b());
  Grid dg(Make(s, cx), Make(s, cy)), pg(Make(s, px), Make(s, py));
  s.note("x", Desc(cx));
  s.note("px", Desc(px));
  const bool one_shape = s.b();
  const size_t nx = s.i(1, 4), ny = s.i(1, 4);
  std::vector<ParmValue::ShPtr> vals;
  std::vector<Array<double>> cs;
  for (size_t k = 0; k < dg.size(); ++k) {
    cs.push_back(one_shape ? GenValues(s, nx, ny) : GenValues(s, s.i(1, 4), s.i(1, 4)));
    vals.push_back(std::make_shared<ParmValue>());
    vals.back()->setCoeff(cs.back());
  }
  const bool none = s.chance(1, 8);
  ParmValue def;
  const Array<double> dc = GenValues(s, nx, ny);
  def.setCoeff(dc);
  const ParmValueSet set = none ? ParmValueSet(def, ParmValue::Polc) : ParmValueSet(dg, vals, def, ParmValue::Polc);
  std::vector<double> pert;
  if (one_shape && s.b())
    for (size_t k = 0; k < nx * ny; ++k) pert.push_back(s.sym(1));
  std::vector<Array<double>> res(pert.size() + 1);
  AxisMappingCache cache;
  Parm::getResultCoeff(res.data(), pg, set, pert, cache);
  for (size_t r = 0; r < res.size(); ++r) {
    CHECK(res[r].shape().isEqual(IPosition(2, px.size(), py.size())));
    for (size_t j = 0; j < py.size(); ++j)
      for (size_t i = 0; i < px.size(); ++i) {
        long double x, y;
        Array<double> c;
        if (none) {
          x = (px.mid(i) + 1e30L) / 2e30L;
          y = (py.mid(j) + 1e30L) / 2e30L;
          c.assign(dc);
        } else {
          const size_t a = Nearest(cx, px.mid(i)), b = Nearest(cy, py.mid(j));
          x = ((long double)px.mid(i) - cx.lo[a]) / (cx.up[a] - cx.lo[a]);
          y = ((long double)py.mid(j) - cy.lo[b]) / (cy.up[b] - cy.lo[b]);
          c.assign(cs[a + b * cx.size()]);
        }
        if (r > 0) c.data()[r - 1] += pert[r - 1];
        long double m;
        const long double want = Poly(c, x, y, &m);
        CHECK_NEAR(res[r].data()[i + j * px.size()], double(want), 1e-10 * double(1 + m), "cell", i, j, "pert", r);
      }
  }
  s.label(pert.empty() ? "plain" : "perturbed");
  s.nontrivial(dg.size() > 1 && !none);
}

PROP("P23.scalars", 3000, 30000) {
  Cells cx = GenCells(s, s.i(1, 7), false), cy = GenCells(s, s.i(1, 7), false);
  const size_t nx = cx.size(), ny = cy.size();
  const Array<double> all = GenValues(s, nx, ny);
  Array<double> err(all.shape());
  for (size_t i = 0; i < nx * ny; ++i) err.data()[i] = s.real(0.1, 1);
  const bool tiles = s.b();
  Cells px = GenPredict(s, cx, tiles), py = GenPredict(s, cy, tiles);
  const Grid pg(Make(s, px), Make(s, py));
  s.note("x", Desc(cx));
  s.note("px", Desc(px));
  Array<double> res;
  AxisMappingCache cache;
  std::vector<bool> has_err(nx * ny, true);
  if (!tiles) {
    ParmValue pv;
    pv.setScalars(Grid(Make(s, cx), Make(s, cy)), all);
    Parm::getResultScalar(res, pg, pv, cache);
    s.nontrivial(nx * ny > 1);
  } else {
    std::vector<size_t> tx = {0}, ty = {0};
    while (tx.back() < nx) tx.push_back(s.i(tx.back() + 1, nx));
    while (ty.back() < ny) ty.push_back(s.i(ty.back() + 1, ny));
    std::vector<ParmValue::ShPtr> vals;
    std::vector<Box> boxes;
    for (size_t j = 0; j + 1 < ty.size(); ++j)
      for (size_t i = 0; i + 1 < tx.size(); ++i) {
        Cells a = Slice(cx, tx[i], tx[i + 1]), b = Slice(cy, ty[j], ty[j + 1]);
        Array<double> part(IPosition(2, a.size(), b.size())), perr(part.shape());
        const bool he = s.chance(3, 4);
        for (size_t q = 0; q < b.size(); ++q)
          for (size_t p = 0; p < a.size(); ++p) {
            part.data()[p + q * a.size()] = all.data()[tx[i] + p + (ty[j] + q) * nx];
            perr.data()[p + q * a.size()] = err.data()[tx[i] + p + (ty[j] + q) * nx];
            has_err[tx[i] + p + (ty[j] + q) * nx] = he;
          }
        vals.push_back(std::make_shared<ParmValue>());
        vals.back()->setScalars(Grid(Make(s, a), Make(s, b)), part);
        if (he) vals.back()->setErrors(perr);
        boxes.push_back(vals.back()->getGrid().getBoundingBox());
      }
    const ParmValueSet set(Grid(boxes), vals);
    Array<double> e;
    const bool want_err = s.b();
    Parm::getResultScalar(res, want_err ? &e : nullptr, pg, set, cache);
    if (want_err)
      for (size_t j = 0; j < py.size(); ++j)
        for (size_t i = 0; i < px.size(); ++i) {
          const size_t k = Nearest(cx, px.mid(i)) + Nearest(cy, py.mid(j)) * nx;
          CHECK_EQ(e.data()[i + j * px.size()], has_err[k] ? err.data()[k] : -1.0);
        }
    s.label("several values");
    s.nontrivial(vals.size() > 1);
  }
  CHECK(res.shape().isEqual(IPosition(2, px.size(), py.size())));
  for (size_t j = 0; j < py.size(); ++j)
    for (size_t i = 0; i < px.size(); ++i)
      CHECK_EQ(res.data()[i + j * px.size()], all.data()[Nearest(cx, px.mid(i)) + Nearest(cy, py.mid(j)) * nx], "cell", i, j);
}

namespace {
// Index of the cell of `old` nearest to cell k of the combined axis.
struct Ext {
  Cells c;
  size_t a;  // place of the old cells in c
};
Ext GenExtension(Src& s, const Cells& c, size_t& a1, size_t& b1, size_t& a2, size_t& b2) {
  const size_t n = c.size();
  a1 = s.n(n), b1 = s.i(a1 + 1, n), a2 = s.n(n), b2 = s.i(a2 + 1, n);
  Ext e;
  if (a1 < b2 && a2 < b1) {
    e.c = Slice(c, std::min(a1, a2), std::max(b1, b2));
    e.a = a1 - std::min(a1, a2);
  } else {
    Cells l = Slice(c, std::min(a1, a2), std::min(b1, b2)), h = Slice(c, std::max(a1, a2), std::max(b1, b2));
    e.a = a1 < a2 ? 0 : l.size() + (l.up.back() != h.lo.front());
    if (l.up.back() != h.lo.front()) {
      const double u = l.up.back();
      l.lo.push_back(u);
      l.up.push_back(h.lo.front());
    }
    l.lo.insert(l.lo.end(), h.lo.begin(), h.lo.end());
    l.up.insert(l.up.end(), h.up.begin(), h.up.end());
    e.c = l;
  }
  return e;
}
size_t ClampTo(size_t k, size_t a, size_t n) { return k < a ? 0 : std::min(k - a, n - 1); }
}  // namespace

PROP("P23.solve_grid", 2500, 25000) {
  Cells cx = GenCells(s, s.i(1, 8), false), cy = GenCells(s, s.i(1, 8), false);
  size_t ax1, bx1, ax2, bx2, ay1, by1, ay2, by2;
  const Ext ex = GenExtension(s, cx, ax1, bx1, ax2, bx2), ey = GenExtension(s, cy, ay1, by1, ay2, by2);
  Cells ox = Slice(cx, ax1, bx1), oy = Slice(cy, ay1, by1);
  const Grid old(Make(s, ox), Make(s, oy));
  const Grid solve(Make(s, Slice(cx, ax2, bx2)), Make(s, Slice(cy, ay2, by2)));
  const bool contained = old.getBoundingBox().contains(solve.getBoundingBox());
  s.note("old", Desc(ox) + " x " + Desc(oy));
  s.note("solve", Desc(Slice(cx, ax2, bx2)) + " x " + Desc(Slice(cy, ay2, by2)));
  const size_t nx = ox.size(), ny = oy.size();
  if (s.b()) {
    // One array of scalars.
    if (s.chance(1, 6)) {
      // No values yet: the default everywhere on the solve grid.
      ParmValueSet set(ParmValue(2.5));
      set.setSolveGrid(solve);
      CHECK_EQ(set.size(), 1u);
      const ParmValue& v = set.getParmValue(0);
      CheckAxis(*v.getGrid()[0], Slice(cx, ax2, bx2));
      CheckAxis(*v.getGrid()[1], Slice(cy, ay2, by2));
      CHECK_EQ(v.getValues().size(), solve.size());
      for (size_t k = 0; k < solve.size(); ++k) CHECK_EQ(v.getValues().data()[k], 2.5);
      CHECK(set.getGrid().getBoundingBox() == solve.getBoundingBox());
      CHECK_EQ(v.getRowId(), -1);
      return;
    }
    const Array<double> vals = GenValues(s, nx, ny);
    auto pv = std::make_shared<ParmValue>();
    pv->setScalars(old, vals);
    pv->setRowId(5);
    ParmValueSet set(Grid(std::vector<Box>(1, old.getBoundingBox())), {pv});
    set.setSolveGrid(solve);
    CHECK_EQ(set.size(), 1u);
    const ParmValue& v = set.getParmValue(0);
    CHECK_EQ(v.getRowId(), 5);
    const Cells& wx = contained ? ox : ex.c;
    const Cells& wy = contained ? oy : ey.c;
    const size_t a = contained ? 0 : ex.a, b = contained ? 0 : ey.a;
    CheckAxis(*v.getGrid()[0], wx);
    CheckAxis(*v.getGrid()[1], wy);
    CHECK(set.getGrid().getBoundingBox() == v.getGrid().getBoundingBox());
    CHECK_EQ(set.getGrid().size(), 1u);
    for (size_t j = 0; j < wy.size(); ++j)
      for (size_t i = 0; i < wx.size(); ++i)
        CHECK_EQ(v.getValues().data()[i + j * wx.size()], vals.data()[ClampTo(i, a, nx) + ClampTo(j, b, ny) * nx], "cell", i, j);
  } else {
    const size_t px = s.i(1, 3), py = s.i(1, 3);
    if (s.chance(1, 6)) {
      // The default polynomial, on every cell, describing the same function.
      ParmValue def;
      const Array<double> c = GenValues(s, px, py);
      def.setCoeff(c);
      const bool dom = s.b();
      const Box scale(Point(cx.lo[0], cy.lo[0]), Point(cx.up.back(), cy.up.back()));
      ParmValueSet set(def, ParmValue::Polc, 1e-6, true, dom ? scale : Box());
      set.setSolveGrid(solve);
      CHECK_EQ(set.size(), solve.size());
      for (size_t k = 0; k < solve.size(); ++k) {
        const Box cell = solve.getCell(k);
        for (double fx : {0.0, 0.5, 1.25})
          for (double fy : {0.0, 0.5, 1.25}) {
            const double x = cell.lowerX() + fx * cell.widthX(), y = cell.lowerY() + fy * cell.widthY();
            long double m;
            const long double want = dom ? Poly(c, ((long double)x - scale.lowerX()) / scale.widthX(), ((long double)y - scale.lowerY()) / scale.widthY(), &m)
                                         : Poly(c, fx, fy, &m);
            CHECK_NEAR(double(Poly(set.getParmValue(k).getValues(), fx, fy)), double(want), 1e-10 * double(1 + m));
          }
      }
      // Independent copies.
      if (set.size() > 1) {
        const double before = set.getParmValue(1).getValues().data()[0];
        set.getParmValue(0).getValues().data()[0] += 1;
        CHECK_EQ(set.getParmValue(1).getValues().data()[0], before);
        CHECK_EQ(set.getDefParmValue().getValues().data()[0], c.data()[0]);
      }
      return;
    }
    std::vector<ParmValue::ShPtr> vals;
    std::vector<Array<double>> cs;
    for (size_t k = 0; k < nx * ny; ++k) {
      cs.push_back(GenValues(s, px, py));
      vals.push_back(std::make_shared<ParmValue>());
      vals.back()->setCoeff(cs.back());
      vals.back()->setRowId(100 + k);
    }
    ParmValueSet set(old, vals, ParmValue(), ParmValue::Polc);
    set.setSolveGrid(solve);
    const Cells& wx = contained ? ox : ex.c;
    const Cells& wy = contained ? oy : ey.c;
    const size_t a = contained ? 0 : ex.a, b = contained ? 0 : ey.a;
    CheckAxis(*set.getGrid()[0], wx);
    CheckAxis(*set.getGrid()[1], wy);
    CHECK_EQ(set.size(), wx.size() * wy.size());
    std::set<const ParmValue*> objects;
    for (size_t j = 0; j < wy.size(); ++j)
      for (size_t i = 0; i < wx.size(); ++i) {
        const size_t k = ClampTo(i, a, nx) + ClampTo(j, b, ny) * nx;
        const ParmValue& v = set.getParmValue(i + j * wx.size());
        const bool is_old = i >= a && i < a + nx && j >= b && j < b + ny;
        CHECK_EQ(v.getRowId(), is_old ? int(100 + k) : -1, "cell", i, j);
        for (size_t q = 0; q < px * py; ++q) CHECK_EQ(v.getValues().data()[q], cs[k].data()[q], "cell", i, j);
        objects.insert(&v);
      }
    CHECK_EQ(objects.size(), size_t(set.size()));
  }
  s.label(contained ? "contained" : "extended");
  s.nontrivial(!contained && nx * ny > 1);
}

// A history of reads, updates and flushes of several parameters.
PROP("P23.history", 2000, 20000) {
  Stores().clear();
  const std::string dbname = "db";
  ParmDB db(ParmDBMeta("casa", dbname), true);
  Store& st = Stores()[dbname];
  struct M {
    std::string name;
    bool scalar;
    size_t nx, ny;  // coefficients
    std::vector<std::vector<double>> val, err;  // per solve cell
    bool has_err_all = false;
    std::vector<bool> has_err;
    std::vector<bool> mask;
    double pert;
    bool rel;
    bool dirty = false;
  };
  Cells sx = GenCells(s, s.i(1, 4), false), sy = GenCells(s, s.i(1, 4), false);
  const Grid solve(Make(s, sx), Make(s, sy));
  std::vector<M> ms;
  const size_t np = s.i(1, 4);
  for (size_t p = 0; p < np; ++p) {
    M m;
    m.name = "Gain:" + std::to_string(p);
    m.scalar = s.b();
    m.nx = m.scalar ? 1 : s.i(1, 3);
    m.ny = m.scalar ? 1 : s.i(1, 3);
    m.pert = s.real(1e-6, 0.1);
    m.rel = s.b();
    const bool stored = s.chance(2, 3);
    ParmValue def(m.scalar ? s.sym(3) : 0.0);
    if (!m.scalar) def.setCoeff(GenValues(s, m.nx, m.ny));
    const auto type = m.scalar ? ParmValue::Scalar : ParmValue::Polc;
    ParmValueSet set(def, type, m.pert, m.rel);
    if (stored) {
      std::vector<ParmValue::ShPtr> vals;
      if (m.scalar) {
        vals.push_back(std::make_shared<ParmValue>());
        const Array<double> v = GenValues(s, sx.size(), sy.size());
        vals[0]->setScalars(solve, v);
        for (size_t k = 0; k < solve.size(); ++k) m.val.push_back({v.data()[k]});
        set = ParmValueSet(Grid(std::vector<Box>(1, solve.getBoundingBox())), vals, def, type, m.pert, m.rel);
      } else {
        for (size_t k = 0; k < solve.size(); ++k) {
          const Array<double> v = GenValues(s, m.nx, m.ny);
          vals.push_back(std::make_shared<ParmValue>());
          vals.back()->setCoeff(v);
          m.val.emplace_back(v.data(), v.data() + m.nx * m.ny);
        }
        set = ParmValueSet(solve, vals, def, type, m.pert, m.rel);
      }
    } else {
      const double* d = def.getValues().data();
      for (size_t k = 0; k < solve.size(); ++k) m.val.emplace_back(d, d + m.nx * m.ny);
    }
    if (!m.scalar && s.chance(1, 2)) {
      Array<bool> mask(IPosition(2, m.nx, m.ny));
      for (size_t q = 0; q < m.nx * m.ny; ++q) m.mask.push_back(mask.data()[q] = s.chance(2, 3));
      set.setSolvableMask(mask);
    }
    m.err.assign(solve.size(), std::vector<double>(m.nx * m.ny, 0.0));
    m.has_err.assign(m.scalar ? 1 : solve.size(), false);
    if (stored) {
      const int id = int(st.ids.size());
      st.ids[m.name] = id;
      st.values[id] = set;
    } else {
      st.defs[m.name] = set;
    }
    ms.push_back(m);
  }
  ParmSet pset;
  std::vector<ParmId> ids;
  for (size_t p = 0; p < np; ++p) {
    ids.push_back(pset.addParm(db, ms[p].name));
    CHECK_EQ(ids[p], p);
    if (s.b()) CHECK_EQ(pset.addParm(db, ms[s.n(p + 1)].name) <= p, true);
    CHECK_EQ(pset.find(ms[p].name), ids[p]);
    CHECK_EQ(pset.isInParmDB(p), st.ids.count(ms[p].name) > 0);
  }
  CHECK_EQ(pset.size(), np);
  CHECK_EQ(pset.getDBs().size(), 1u);
  CHECK(vpt::Throws([&] { pset.find("Gain"); }));
  ParmCache cache(pset, solve.getBoundingBox());
  std::vector<std::unique_ptr<Parm>> parms;
  for (size_t p = 0; p < np; ++p) {
    parms.push_back(s.b() ? std::make_unique<Parm>(cache, ids[p]) : std::make_unique<Parm>(cache, ms[p].name));
    parms[p]->setSolveGrid(solve);
  }
  st.written.clear();
  auto masked = [&](const M& m, const std::vector<double>& v, bool use) {
    if (!use || m.mask.empty()) return v;
    std::vector<double> r;
    for (size_t q = 0; q < v.size(); ++q)
      if (m.mask[q]) r.push_back(v[q]);
    return r;
  };
  auto check_pert = [&](size_t p) {
    const M& m = ms[p];
    const std::vector<double> c = masked(m, m.val[0], true);
    CHECK_EQ(parms[p]->getPerturbations().size(), c.size());
    for (size_t q = 0; q < c.size(); ++q) {
      const double want = m.rel && std::abs(c[q]) > 1e-10 ? c[q] * m.pert : m.pert;
      CHECK_EQ(parms[p]->getPerturbations()[q], want);
      CHECK_EQ(parms[p]->getPerturbation(q), want);
    }
  };
  const int ops = s.i(1, 12);
  int sets = 0, flushes = 0;
  for (int o = 0; o < ops; ++o) {
    const size_t p = s.n(np);
    M& m = ms[p];
    const size_t cell = s.n(solve.size());
    const Grid::Location loc = solve.getCellLocation(cell);
    const bool use = s.b();
    const size_t ecell = m.scalar ? 0 : cell;
    switch (s.n(4)) {
      case 0:
        CHECK_EQ(parms[p]->getCoeffSize(use), unsigned(m.scalar ? 1 : masked(m, m.val[cell], use).size()));
        CHECK(parms[p]->getCoeff(loc, use) == masked(m, m.val[cell], use));
        if (m.has_err[ecell])
          CHECK(parms[p]->getErrors(loc, use) == masked(m, m.err[cell], use));
        else
          CHECK(parms[p]->getErrors(loc, use).empty());
        break;
      case 1: {
        Array<double> r;
        const bool pertq = s.b();
        std::vector<Array<double>> rv;
        Cells px = GenPredict(s, sx, false), py = GenPredict(s, sy, false);
        const Grid pg(Make(s, px), Make(s, py));
        parms[p]->getResult(r, pg);
        if (m.scalar && solve.size() == 1) {
          CHECK_EQ(r.size(), 1u);
          CHECK_EQ(r.data()[0], m.val[0][0]);
        } else {
          for (size_t j = 0; j < py.size(); ++j)
            for (size_t i = 0; i < px.size(); ++i) {
              const size_t a = Nearest(sx, px.mid(i)), b = Nearest(sy, py.mid(j));
              Array<double> c(IPosition(2, m.nx, m.ny));
              for (size_t q = 0; q < m.nx * m.ny; ++q) c.data()[q] = m.val[a + b * sx.size()][q];
              long double mg;
              const long double want = Poly(c, ((long double)px.mid(i) - sx.lo[a]) / (sx.up[a] - sx.lo[a]),
                                            ((long double)py.mid(j) - sy.lo[b]) / (sy.up[b] - sy.lo[b]), &mg);
              CHECK_NEAR(r.data()[i + j * px.size()], double(want), 1e-10 * double(1 + mg));
            }
        }
        if (m.mask.empty()) {
          parms[p]->getResult(rv, pg, pertq);
          CHECK_EQ(rv.size(), pertq ? m.nx * m.ny + 1 : 1u);
          CHECK_EQ(rv[0].size(), r.size());
          for (size_t k = 0; k < r.size(); ++k) CHECK_EQ(rv[0].data()[k], r.data()[k]);
          if (pertq && m.scalar)
            for (size_t k = 0; k < r.size(); ++k)
              CHECK_EQ(rv[1].data()[k], r.data()[k] + parms[p]->getPerturbation(0));
        }
        break;
      }
      case 2: {
        std::vector<double> nv, ne;
        const size_t cnt = masked(m, m.val[cell], use).size();
        for (size_t q = 0; q < cnt; ++q) {
          nv.push_back(s.sym(5));
          ne.push_back(s.real(0, 1));
        }
        const bool with_err = s.b();
        nv.reserve(1), ne.reserve(1);
        parms[p]->setCoeff(loc, nv.data(), cnt, with_err ? ne.data() : nullptr, use);
        size_t in = 0;
        for (size_t q = 0; q < m.nx * m.ny; ++q)
          if (!use || m.mask.empty() || m.mask[q]) {
            m.val[cell][q] = nv[in];
            if (with_err) m.err[cell][q] = ne[in];
            ++in;
          }
        if (with_err) m.has_err[ecell] = true;
        m.dirty = true;
        ++sets;
        break;
      }
      default: {
        cache.flush();
        std::vector<std::string> want;
        for (M& x : ms) {
          if (x.dirty) want.push_back(x.name);
          x.dirty = false;
        }
        CHECK(st.written == want);
        st.written.clear();
        CHECK_EQ(st.writes_unlocked, 0, "values written without a lock");
        CHECK_EQ(st.locked, 0);
        ++flushes;
      }
    }
    for (size_t q = 0; q < np; ++q) {
      check_pert(q);
      CHECK_EQ(cache.getValueSet(ids[q]).isDirty(), ms[q].dirty);
    }
  }
  for (size_t p = 0; p < np; ++p)
    for (size_t k = 0; k < solve.size(); ++k)
      CHECK(parms[p]->getCoeff(solve.getCellLocation(k), false) == ms[p].val[k]);
  s.nontrivial(sets > 1 && flushes > 0);
}

// Default values are found under the name or the nearest enclosing category;
// a database is opened once however often it is attached to.
PROP("P23.database", 2000, 20000) {
  Stores().clear();
  const int ndb = s.i(1, 3);
  std::vector<std::vector<std::unique_ptr<ParmDB>>> handles(ndb);
  auto name = [](int k) { return "tab" + std::to_string(k); };
  auto gen_name = [&] {
    std::string n = s.pick<const char*>({"Gain", "Phase", "G"});
    const int parts = s.i(0, 3);
    for (int k = 0; k < parts; ++k) n += std::string(":") + s.pick<const char*>({"0", "1", "CS001", "Real", ""});
    return n;
  };
  int lookups = 0, found = 0;
  const int ops = s.i(1, 16);
  for (int o = 0; o < ops; ++o) {
    const int k = s.n(ndb);
    auto& h = handles[k];
    switch (s.n(5)) {
      case 0: h.push_back(std::make_unique<ParmDB>(ParmDBMeta("casa", name(k)), false)); break;
      case 1:
        if (!h.empty()) {
          const size_t v = s.n(h.size());
          h.erase(h.begin() + v);
        }
        break;
      case 2:
        if (!h.empty()) {
          if (s.b())
            h.push_back(std::make_unique<ParmDB>(*h[s.n(h.size())]));
          else {
            const int other = s.n(ndb);
            if (!handles[other].empty()) {
              // Assignment moves a handle to the other database.
              ParmDB& target = *h.back();
              target = *handles[other].front();
              if (other != k) {
                handles[other].push_back(std::move(h.back()));
                h.pop_back();
              }
            }
          }
        }
        break;
      case 3:
        if (!h.empty()) {
          const std::string n = gen_name();
          h[s.n(h.size())]->putDefValue(n, ParmValueSet(ParmValue(s.sym(4))));
        }
        break;
      default:
        if (!h.empty()) {
          const std::string n = gen_name();
          double want = 77;
          std::string q = n;
          while (true) {
            auto it = Stores()[name(k)].defs.find(q);
            if (it != Stores()[name(k)].defs.end()) {
              want = it->second.getFirstParmValue().getValues().data()[0];
              ++found;
              break;
            }
            const size_t c = q.rfind(':');
            if (c == std::string::npos) break;
            q.resize(c);
          }
          const ParmValueSet v = h[s.n(h.size())]->getDefValue(n, ParmValue(77));
          CHECK_EQ(v.getFirstParmValue().getValues().data()[0], want, n);
          ++lookups;
        }
    }
    std::set<int> seq;
    int open = 0;
    for (int d = 0; d < ndb; ++d) {
      CHECK_EQ(Stores()[name(d)].alive, handles[d].empty() ? 0 : 1, "database", d);
      for (auto& x : handles[d]) {
        CHECK_EQ(x->getParmDBSeqNr(), handles[d][0]->getParmDBSeqNr());
        CHECK_EQ(x->getParmDBMeta().getTableName(), name(d));
      }
      if (!handles[d].empty()) {
        ++open;
        seq.insert(handles[d][0]->getParmDBSeqNr());
        CHECK_EQ(ParmDB::getParmDB(handles[d][0]->getParmDBSeqNr()).getParmDBMeta().getTableName(), name(d));
      }
    }
    CHECK_EQ(int(seq.size()), open);
    CHECK(vpt::Throws([&] { ParmDB::getParmDB(1000); }));
  }
  CHECK(vpt::Throws([&] { ParmDB x(ParmDBMeta("unknown", "z")); }));
  s.nontrivial(lookups > 0 && found > 0);
}

VPT_MAIN
