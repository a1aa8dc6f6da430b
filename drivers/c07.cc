// C07: regions, geometric models and domains of the real code against their definitions.
#include <memory>
#include "drv.hh"
#include "Point.hh"
#include "BoxRegion.hh"
#include "PlaneRegion.hh"
#include "PointRegion.hh"
#include "PolygonRegion.hh"
#include "LogicalRegion.hh"
#include "LabeledSetRegion.hh"
#include "GeometricModel.hh"
#include "Domain.hh"
#include "errors.hh"
using namespace drv;
using namespace JaliGeometry;
typedef std::vector<double> D;
static Point P(D const& x) { Point p((int)x.size()); if (x.size() == 1) p.set(&x[0]); else if (x.size() == 2) p.set(x[0], x[1]); else p.set(x[0], x[1], x[2]); return p; }
static std::string S(D const& x) { std::string s = "("; for (double v : x) { char b[40]; snprintf(b, 40, "%.17g ", v); s += b; } return s + ")"; }
template<class F> int raised(F f) { try { f(); } catch (std::exception const&) { return 1; } catch (...) { return 2; } return 0; }
static D rv(Rng& g, int d, bool integral) { D x; for (int i = 0; i < d; i++) x.push_back(integral ? (double)(g.below(9) - 4) : g.real(-5, 5)); return x; }
static bool samep(Point const& p, D const& x) { if (p.dim() != (int)x.size()) return false; for (size_t i = 0; i < x.size(); i++) if (p[i] != x[i]) return false; return true; }
static const char *TL[] = {"permanent", "temporary"};

static void base(Region const& r, std::string const& nm, unsigned id, unsigned dim, LifeCycle_type lc, Region_type t, const char *what) {
  check(r.name() == nm && r.id() == id && r.lifecycle() == lc && r.type() == t, "region-identity", "%s: name %s id %u lifecycle %d type %d", what, r.name().c_str(), r.id(), (int)r.lifecycle(), (int)r.type());
  check(r.dimension() == dim, "region-dimension", "%s reports dimension %u, expected %u", what, r.dimension(), dim);
}

int main(int argc, char **argv) {
  init(argc, argv);
  Rng g(seed() + 17);
  int reps = thorough() ? 4000 : 250;
  const double T = 1e-8;
  for (int d = 1; d <= 3; d++)
    for (int it = 0; it < reps; it++) {
      // ---- box
      D a = rv(g, d, it % 2), b = rv(g, d, it % 2);
      if (it % 5 == 0) b[g.below(d)] = a[g.below(d)];
      if (it % 7 == 0) { int k = g.below(d); b[k] = a[k]; }
      LifeCycle_type lc = it % 3 ? LifeCycle_type::PERMANENT : LifeCycle_type::TEMPORARY;
      std::string nm = "reg" + std::to_string(g.below(100)); unsigned id = g.below(1000);
      at("box %s %s in %dD, %s", S(a).c_str(), S(b).c_str(), d, TL[(int)lc]);
      if (it < 2) sample("%s", cur);
      int deg = 0; for (int k = 0; k < d; k++) if (a[k] == b[k]) deg++;
      BoxRegion B(nm, id, P(a), P(b), lc);
      BoxRegion B2(B);
      BoxRegion *bs[2] = {&B, &B2};
      for (int c = 0; c < 2; c++) {
        BoxRegion& x = *bs[c];
        base(x, nm, id, d - deg, lc, Region_type::BOX, c ? "box copy" : "box");
        check(samep(x.point0(), a) && samep(x.point1(), b), "box-corners", "corner points changed (copy %d)", c);
        Point lo(d), hi(d); x.corners(&lo, &hi);
        check(samep(lo, a) && samep(hi, b), "box-corners", "corners() differ (copy %d)", c);
        int nd = -1; bool dg = x.is_degenerate(&nd);
        check(dg == (deg > 0) && nd == deg, "box-degenerate", "is_degenerate %d (%d), expected %d", (int)dg, nd, deg);
        for (int q = 0; q < 24; q++) {
          D p(d);
          for (int k = 0; k < d; k++) {
            double l = std::min(a[k], b[k]), h = std::max(a[k], b[k]);
            switch (g.below(7)) {
              case 0: p[k] = l; break;
              case 1: p[k] = h; break;
              case 2: p[k] = l - 1e-9; break;
              case 3: p[k] = h + 1e-9; break;
              default: p[k] = l + (h - l) * g.real(0, 1);
            }
          }
          // one coordinate may leave the box
          int out = g.below(3) ? g.below(d) : -1;
          if (out >= 0) { double l = std::min(a[out], b[out]), h = std::max(a[out], b[out]); double e = g.below(2) ? 1e-7 : g.real(0.01, 8); p[out] = g.below(2) ? l - e : h + e; }
          bool in = true, border = false;
          for (int k = 0; k < d; k++) {
            double l = std::min(a[k], b[k]), h = std::max(a[k], b[k]);
            if (p[k] < l - T || p[k] > h + T) in = false;
            if (std::fabs(p[k] - (l - T)) < 1e-10 || std::fabs(p[k] - (h + T)) < 1e-10) border = true;
          }
          if (border) continue;
          bool r = x.inside(P(p));
          check(r == in, in ? "box-inside-missed" : "box-outside-accepted", "point %s reported %d", S(p).c_str(), (int)r);
        }
        for (int e = 1; e <= 3; e++) if (e != d) check(raised([&] { x.inside(P(rv(g, e, true))); }) == 1, "box-dimension", "a query point of dimension %d is not rejected", e);
      }
      for (int e = 1; e <= 3; e++) if (e != d)
        check(raised([&] { BoxRegion bad(nm, id, P(a), P(rv(g, e, true))); }) == 1, "box-dimension", "corners of dimension %d and %d are not rejected", d, e);
      // ---- point region
      at("point region %s", S(a).c_str());
      PointRegion R(nm, id, P(a), lc), R2(R);
      PointRegion *rs[2] = {&R, &R2};
      for (int c = 0; c < 2; c++) {
        PointRegion& x = *rs[c];
        base(x, nm, id, 0, lc, Region_type::POINT, c ? "point copy" : "point");
        check(samep(x.point(), a), "point-data", "point differs");
        check(x.inside(P(a)), "point-inside-missed", "the point itself is not inside");
        for (int k = 0; k < d; k++)
          for (double e : {1e-13, -1e-13, 1e-11, -1e-11, 0.5, -3.0}) {
            D p = a; p[k] += e; double real = std::fabs(p[k] - a[k]);
            if (std::fabs(real - 1e-12) < 1e-14) continue;
            bool in = real < 1e-12;
            check(x.inside(P(p)) == in, in ? "point-inside-missed" : "point-outside-accepted", "offset %g in direction %d", e, k);
          }
        for (int e = 1; e <= 3; e++) if (e != d) check(raised([&] { x.inside(P(rv(g, e, true))); }) == 1, "point-dimension", "a query point of dimension %d is not rejected", e);
      }
      // ---- plane (integer data so the offset is exact)
      D p0 = rv(g, d, true), n = rv(g, d, true);
      bool nz = false; for (double v : n) nz |= v != 0;
      if (!nz) n[0] = 1;
      at("plane through %s normal %s", S(p0).c_str(), S(n).c_str());
      PlaneRegion L(nm, id, P(p0), P(n), lc), L2(L);
      PlaneRegion *ls[2] = {&L, &L2};
      for (int c = 0; c < 2; c++) {
        PlaneRegion& x = *ls[c];
        base(x, nm, id, d - 1, lc, Region_type::PLANE, c ? "plane copy" : "plane");
        check(samep(x.point(), p0) && samep(x.normal(), n), "plane-data", "point or normal differ");
        for (int q = 0; q < 20; q++) {
          D p = rv(g, d, true);
          if (q % 2) { // put it on the plane: p0 + w (n.n) - (w.n) n for integer w
            double nn = 0, wn = 0; for (int k = 0; k < d; k++) { nn += n[k] * n[k]; wn += p[k] * n[k]; }
            for (int k = 0; k < d; k++) p[k] = p0[k] + p[k] * nn - wn * n[k];
          }
          double off = 0; for (int k = 0; k < d; k++) off += n[k] * (p[k] - p0[k]);
          bool in = off == 0;
          check(x.inside(P(p)) == in, in ? "plane-inside-missed" : "plane-outside-accepted", "point %s at offset %g", S(p).c_str(), off);
        }
        for (int e = 1; e <= 3; e++) if (e != d) check(raised([&] { x.inside(P(rv(g, e, true))); }) == 1, "plane-dimension", "a query point of dimension %d is not rejected", e);
      }
      for (int e = 1; e <= 3; e++) if (e != d)
        check(raised([&] { PlaneRegion bad(nm, id, P(p0), P(rv(g, e, true))); }) == 1, "plane-dimension", "point of dimension %d and normal of dimension %d are not rejected", d, e);
    }
  // ---- polygon regions: segments in 2D, planar polygons in 3D of every orientation
  for (int it = 0; it < reps; it++) {
    D a = rv(g, 2, true), b = rv(g, 2, true);
    if (a != b) {
      at("segment %s %s", S(a).c_str(), S(b).c_str());
      PolygonRegion Q("seg", 3, 2, {P(a), P(b)}), Q2(Q);
      for (int c = 0; c < 2; c++) {
        PolygonRegion& x = c ? Q2 : Q;
        for (double t : {0.0, 0.25, 0.5, 0.75, 1.0, -0.25, 1.25, -1.0, 2.0}) {
          if (t == 0.0 || t == 1.0) continue;      // end points are on the boundary of the tolerance test
          D p = {a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])};
          bool in = t >= 0 && t <= 1;
          check(x.inside(P(p)) == in, in ? "polygon-region-inside-missed" : "polygon-region-outside-accepted", "parameter %g along the segment", t);
          D q = {p[0] - 0.5 * (b[1] - a[1]), p[1] + 0.5 * (b[0] - a[0])};
          check(!x.inside(P(q)), "polygon-region-outside-accepted", "point off the line at parameter %g", t);
        }
      }
    }
    // convex or non-convex polygon in the (u,v) plane mapped by one of the planes
    static const std::vector<std::vector<D>> shp = {{{0, 0}, {4, 0}, {4, 4}, {0, 4}}, {{0, 0}, {4, 0}, {0, 4}}, {{0, 0}, {4, 0}, {4, 4}, {2, 2}, {0, 4}},
                                                    {{2, 0}, {4, 2}, {2, 4}, {0, 2}}, {{0, 0}, {6, 0}, {6, 2}, {2, 2}, {2, 6}, {0, 6}}};
    std::vector<D> f = shp[g.below(shp.size())];
    if (g.below(2)) std::reverse(f.begin() , f.end());
    int dir = g.below(3);
    double c0 = g.below(7) - 3;
    double sx = 0, sy = 0;                                  // optional integer slopes: third = c0 + sx*u + sy*v
    if (g.below(2)) { sx = g.below(3) - 1; sy = g.below(3) - 1; }
    auto lift = [&](double u, double v) { D p(3); p[(dir + 1) % 3] = u; p[(dir + 2) % 3] = v; p[dir] = c0 + sx * u + sy * v; return p; };
    // init() takes the normal from the first corner: start at a convex corner
    std::vector<Point> pts; for (auto& q : f) { D l = lift(q[0], q[1]); pts.push_back(P(l)); }
    std::string sh; for (auto& q : f) sh += S(lift(q[0], q[1]));
    at("polygon region%s", sh.c_str());
    if (it < 2) sample("%s", cur);
    PolygonRegion Q("poly", 4, pts.size(), pts), Q2(Q);
    for (int c = 0; c < 2; c++) {
      PolygonRegion& x = c ? Q2 : Q;
      check(x.num_points() == f.size() && x.points().size() == f.size() && x.type() == Region_type::POLYGON && x.name() == "poly" && x.id() == 4, "polygon-region-data", "data differ");
      for (double u = -1.75; u < 8; u += 0.75)
        for (double v = -1.75; v < 8; v += 0.75) {
          double w = 0; size_t m = f.size(); bool edge = false;
          for (size_t i = 0; i < m; i++) {
            double ax = f[i][0] - u, ay = f[i][1] - v, bx = f[(i + 1) % m][0] - u, by = f[(i + 1) % m][1] - v;
            double cr = ax * by - ay * bx, dp = ax * bx + ay * by;
            if (std::fabs(cr) < 1e-9 && dp <= 0) edge = true;
            w += std::atan2(cr, dp);
          }
          if (edge) continue;
          bool in = std::lround(w / (2 * M_PI)) != 0;
          D l = lift(u, v);
          check(x.inside(P(l)) == in, in ? "polygon-region-inside-missed" : "polygon-region-outside-accepted", "point %s of its plane", S(l).c_str());
          l[dir] += 1;
          check(!x.inside(P(l)), "polygon-region-outside-accepted", "point %s off its plane", S(l).c_str());
        }
    }
  }
  // ---- logical and labeled set regions
  {
    at("logical regions");
    std::vector<std::string> names = {"a", "b", "c"};
    const char *ops[] = {"Complement", "Union", "Intersect", "Subtract"};
    Bool_type bt[] = {Bool_type::COMPLEMENT, Bool_type::UNION, Bool_type::INTERSECT, Bool_type::SUBTRACT};
    for (int k = 0; k < 4; k++)
      for (int n = 0; n <= 3; n++)
        for (int lc = 0; lc < 2; lc++) {
          at("logical region %s of %d components", ops[k], n);
          std::vector<std::string> c(names.begin(), names.begin() + n);
          LogicalRegion A("lr", 8, std::string(ops[k]), c, (LifeCycle_type)lc), B("lr", 8, bt[k], c, (LifeCycle_type)lc), A2(A), B2(B);
          LogicalRegion *q[] = {&A, &B, &A2, &B2};
          for (int i = 0; i < 4; i++) {
            base(*q[i], "lr", 8, 3, (LifeCycle_type)lc, Region_type::LOGICAL, i > 1 ? "logical copy" : "logical");
            check(q[i]->operation() == bt[k], "logical-copy", "operation is %d (object %d)", (int)q[i]->operation(), i);
            check(q[i]->component_regions() == c, "logical-copy", "component names lost (object %d)", i);
            check(raised([&] { q[i]->inside(Point(0.0, 0.0)); }) == 1, "logical-inside", "in/out query does not report that it is unsupported");
          }
        }
    for (auto s : {"", "union", "Union ", "NOT", "Complements"})
      check(raised([&] { LogicalRegion bad("x", 1, std::string(s), names); }) == 1, "logical-operation", "operation '%s' accepted", s);
    at("labeled set region");
    LabeledSetRegion A("ls", 9, "CELL", "f.exo", "Exodus II", "17"), A2(A);
    base(A, "ls", 9, 3, LifeCycle_type::PERMANENT, Region_type::LABELEDSET, "labeled");
    base(A2, "ls", 9, 3, LifeCycle_type::PERMANENT, Region_type::LABELEDSET, "labeled copy");
    check(A.label() == "17" && A.entity_str() == "CELL", "labeled-data", "label or entity lost");
    check(A2.label() == "17" && A2.entity_str() == "CELL", "labeled-copy", "label or entity lost by the copy: '%s' '%s'", A2.label().c_str(), A2.entity_str().c_str());
  }
  // ---- geometric models and domains: histories of additions against a list
  for (unsigned d = 0; d <= 5; d++) {
    at("model and domain of dimension %u", d);
    bool ok = d == 2 || d == 3;
    check((raised([&] { GeometricModel m(d); }) == 0) == ok, "model-dimension", "GeometricModel(%u)", d);
    check((raised([&] { Domain m(d); }) == 0) == ok, "domain-dimension", "Domain(%u)", d);
    std::vector<RegionPtr> none; std::vector<GeometricModelPtr> nog;
    check((raised([&] { GeometricModel m(d, none); }) == 0) == ok, "model-dimension-list", "GeometricModel(%u, {})", d);
    check((raised([&] { Domain m(d, nog, none); }) == 0) == ok, "domain-dimension-list", "Domain(%u, {}, {})", d);
  }
  for (int it = 0; it < reps; it++) {
    unsigned d = 2 + g.below(2);
    std::vector<std::unique_ptr<Region>> own;
    std::vector<RegionPtr> exp;
    GeometricModel gm(d);
    Domain dom(d);
    std::vector<RegionPtr> frees;
    std::string hist;
    int n = g.below(8);
    for (int i = 0; i < n; i++) {
      unsigned e = 1 + g.below(3);
      Region *r;
      std::string nm = "r" + std::to_string(g.below(4)); unsigned id = g.below(5);
      switch (g.below(3)) {
        case 0: r = new PointRegion(nm, id, P(rv(g, e, true))); break;
        case 1: r = new PlaneRegion(nm, id, P(rv(g, e, true)), P(rv(g, e, true))); break;
        default: r = new BoxRegion(nm, id, P(D(e, 0.0)), P(D(e, 1.0)));
      }
      own.emplace_back(r);
      hist += " " + nm + "/" + std::to_string(id) + "/dim" + std::to_string(r->dimension());
      at("model of dimension %u with regions%s", d, hist.c_str());
      bool fits = r->dimension() <= d;
      int t = raised([&] { gm.Add_Region(r); });
      check((t == 0) == fits, "model-region-dimension", "adding a region of dimension %u: raised %d", r->dimension(), t);
      int t2 = raised([&] { dom.Add_Free_Region(r); });
      check((t2 == 0) == fits, "domain-region-dimension", "adding a free region of dimension %u: raised %d", r->dimension(), t2);
      if (fits) { exp.push_back(r); frees.push_back(r); }
    }
    at("model of dimension %u with regions%s", d, hist.c_str());
    GeometricModel gm2(gm), gm3(d, exp);
    GeometricModel *ms[] = {&gm, &gm2, &gm3};
    for (int k = 0; k < 3; k++) {
      GeometricModel& m = *ms[k];
      check(m.dimension() == d && m.Num_Regions() == (int)exp.size(), "model-content", "model %d has dimension %u and %d regions, expected %d", k, m.dimension(), m.Num_Regions(), (int)exp.size());
      for (int i = 0; i < m.Num_Regions() && i < (int)exp.size(); i++) check(m.Region_i(i) == exp[i], "model-content", "region %d of model %d", i, k);
      for (int q = 0; q < 6; q++) {
        std::string nm = "r" + std::to_string(q);
        RegionPtr e1 = nullptr, e2 = nullptr;
        for (auto r : exp) { if (!e1 && r->name() == nm) e1 = r; if (!e2 && (int)r->id() == q) e2 = r; }
        check(m.FindRegion(nm) == e1, "model-find-name", "name %s in model %d", nm.c_str(), k);
        check(m.FindRegion(q) == e2, "model-find-id", "id %d in model %d", q, k);
      }
      check(m.FindRegion(std::string("")) == nullptr && m.FindRegion(std::string("r")) == nullptr && m.FindRegion(-1) == nullptr, "model-find-name", "found a region that is not there");
    }
    std::vector<std::unique_ptr<GeometricModel>> mods; std::vector<GeometricModelPtr> em;
    int nm = g.below(5);
    for (int i = 0; i < nm; i++) {
      unsigned e = 2 + g.below(2);
      mods.emplace_back(new GeometricModel(e));
      int t = raised([&] { dom.Add_Geometric_Model(mods.back().get()); });
      check((t == 0) == (e == d), "domain-model-dimension", "adding a model of dimension %u to a domain of dimension %u: raised %d", e, d, t);
      if (e == d) em.push_back(mods.back().get());
    }
    Domain dom2(dom);
    std::unique_ptr<Domain> dom3;
    try { dom3.reset(new Domain(d, em, frees)); } catch (...) { fail("domain-dimension-list", "Domain(%u, models, regions) raised an error", d); }
    Domain *ds[] = {&dom, &dom2, dom3.get()};
    for (int k = 0; k < 3; k++) {
      if (!ds[k]) continue;
      Domain& m = *ds[k];
      check(m.spatial_dimension() == d && m.Num_Geometric_Models() == (int)em.size() && m.Num_Free_Regions() == (int)frees.size(), "domain-content", "domain %d has dimension %u, %d models, %d regions; expected %u %d %d", k,
            m.spatial_dimension(), m.Num_Geometric_Models(), m.Num_Free_Regions(), d, (int)em.size(), (int)frees.size());
      for (int i = 0; i < m.Num_Geometric_Models() && i < (int)em.size(); i++) check(m.Geometric_Model_i(i) == em[i], "domain-content", "model %d of domain %d", i, k);
      for (int i = 0; i < m.Num_Free_Regions() && i < (int)frees.size(); i++) check(m.Free_Region_i(i) == frees[i], "domain-content", "free region %d of domain %d", i, k);
    }
  }
  return done();
}
