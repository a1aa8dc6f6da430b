// C19: state vectors against plain arrays
#include <array>
#include "meshes.hh"
#include "JaliState.h"
#include "JaliStateVector.h"
using namespace Jali; using namespace tmesh;
typedef std::array<double, 2> D2;
static double mk(double *, int i, int s) { return s * 1000 + i + .5; }
static int mk(int *, int i, int s) { return s * 1000 + i; }
static D2 mk(D2 *, int i, int s) { return D2{{s * 10. + i, -i - .25}}; }

template <class T, class D>
static void uni(std::shared_ptr<D> dom, Entity_kind k, ET ty, std::shared_ptr<State> st, drv::Rng &g, const char *dn, const char *tn) {
  int n = dom->num_entities(k, ty), s = 1 + g.below(9);
  drv::at("UniStateVector<%s,%s> kind %d type %d (%d entities)", tn, dn, (int)k, (int)ty, n);
  std::vector<T> a(n + 3); for (int i = 0; i < n + 3; i++) a[i] = mk((T *)0, i, s);
  UniStateVector<T, D> v0("v0", dom, st, k, ty), v1("v1", dom, st, k, ty, &a[0]), v2("v2", dom, st, k, ty, mk((T *)0, 7, s));
  drv::check((int)v0.size() == n && (int)v1.size() == n && (int)v2.size() == n, "size", "sizes %d %d %d, want %d", (int)v0.size(), (int)v1.size(), (int)v2.size(), n);
  if ((int)v1.size() != n || (int)v2.size() != n) return;
  drv::check(v1.name() == "v1" && v1.domain() == dom && v1.entity_kind() == k && v1.entity_type() == ty, "meta", "name, domain, kind or type not as given");
  drv::check(v1.type() == StateVector_type::UNIVAL && v1.data_type() == typeid(T), "type", "type queries");
  bool ok = true, ok2 = true, it = true; int p = 0;
  for (int i = 0; i < n; i++) { ok = ok && v1[i] == a[i]; ok2 = ok2 && v2[i] == mk((T *)0, 7, s); }
  for (auto x = v1.cbegin(); x != v1.cend(); ++x, ++p) it = it && p < n && *x == a[p];
  drv::check(ok, "init-array", "values differ from the given array"); drv::check(ok2, "init-value", "values differ from the given value");
  drv::check(it && p == n, "iterate", "iteration visits %d values", p);
  p = 0; for (auto &x : v1) { (void)x; p++; } drv::check(p == n, "iterate", "range iteration visits %d values", p);
  if (n) drv::check(v1.get_raw_data() == &v1[0] && &(*v1.get_data())[0] == &v1[0], "raw", "raw data is not the data");
  UniStateVector<T, D> c(v1), e; e = v1; const UniStateVector<T, D> &cv = v1;
  drv::check(c.name() == "v1" && c.domain() == dom && c.entity_kind() == k && c.entity_type() == ty && (int)c.size() == n, "copy-meta", "copy");
  drv::check(e.name() == "v1" && e.domain() == dom && e.entity_kind() == k && e.entity_type() == ty && (int)e.size() == n, "assign-meta", "assignment");
  std::vector<T> m(a.begin(), a.begin() + n), mc = m;
  for (int r = 0; r < 6 && n; r++) {
    int i = g.below(n); T x = mk((T *)0, 50 + r, s + 3);
    switch (g.below(3)) { case 0: v1[i] = x; m[i] = x; break; case 1: e[i] = x; m[i] = x; break; default: c[i] = x; mc[i] = x; }
    for (int j = 0; j < n; j++) if (!(v1[j] == m[j] && e[j] == m[j] && cv[j] == m[j] && c[j] == mc[j])) { drv::fail("alias", "after writes: element %d of vector, assigned or copied vector wrong", j); break; }
  }
  int nn = g.below(2 * n + 2); T f = mk((T *)0, 99, 1);
  if (g.below(2)) { v1.resize(nn, f); m.resize(nn, f); } else { v1.resize(nn); m.resize(nn); }
  drv::check((int)v1.size() == nn && (int)c.size() == n, "resize", "size %d after resize to %d, copy %d", (int)v1.size(), nn, (int)c.size());
  for (int j = 0; j < nn && j < (int)v1.size(); j++) drv::check(v1[j] == m[j], "resize", "element %d after resize", j);
  c.clear(); drv::check(c.size() == 0 && (int)v1.size() == nn, "clear", "clear");
}

template <class T, class D>
static void multi(std::shared_ptr<D> dom, std::shared_ptr<State> st, int nc, drv::Rng &g, const char *tn) {
  int nm = st->num_materials(), s = 1 + g.below(9);
  drv::at("MultiStateVector<%s> %d materials %d cells", tn, nm, nc);
  std::vector<std::vector<T>> cc(nc, std::vector<T>(nm + 1)), mc(nm + 1, std::vector<T>(nc));
  for (int c = 0; c < nc; c++) for (int m = 0; m < nm; m++) cc[c][m] = mc[m][c] = mk((T *)0, 100 * m + c, s);
  std::vector<T const *> pc(nc), pm(nm + 1); for (int c = 0; c < nc; c++) pc[c] = &cc[c][0]; for (int m = 0; m <= nm; m++) pm[m] = &mc[m][0];
  MultiStateVector<T, D> a("a", dom, st, Entity_kind::CELL, ET::ALL, Data_layout::CELL_CENTRIC, &pc[0]), b("b", dom, st, Entity_kind::CELL, ET::ALL, Data_layout::MATERIAL_CENTRIC, &pm[0]),
      z("z", dom, st, Entity_kind::CELL, ET::ALL), u("u", dom, st, Entity_kind::CELL, ET::ALL, mk((T *)0, 5, s));
  drv::check(a.type() == StateVector_type::MULTIVAL && a.data_type() == typeid(T) && a.name() == "a" && a.domain() == dom && a.entity_kind() == Entity_kind::CELL && a.entity_type() == ET::ALL, "mtype", "queries");
  drv::check((int)a.size() == nm && (int)b.size() == nm && (int)z.size() == nm && (int)u.size() == nm, "msize", "number of materials %d %d %d %d, want %d", (int)a.size(), (int)b.size(), (int)z.size(), (int)u.size(), nm);
  MultiStateVector<T, D> cp(a), as; as = a; const MultiStateVector<T, D> &ca = a, &cb = b, &cu = u;
  for (int m = 0; m < nm; m++) {
    std::vector<int> cells = st->material_cells(m); int k = cells.size();
    drv::check((int)a.size(m) == k && (int)b.size(m) == k && (int)z.size(m) == k && (int)u.size(m) == k && (int)cp.size(m) == k, "mcells", "material %d has %d values, %d cells", m, (int)a.size(m), k);
    if ((int)a.size(m) != k) return;
    for (int i = 0; i < k; i++) {
      T w = mk((T *)0, 100 * m + cells[i], s);
      drv::check(a.get_matdata(m)[i] == w && b.get_matdata(m)[i] == w && a.get_raw_data(m)[i] == w && *(a.cbegin(m) + i) == w && u.get_matdata(m)[i] == mk((T *)0, 5, s), "mvalue", "material %d position %d", m, i);
    }
    drv::check(a.end(m) - a.begin(m) == k && a.cend(m) - a.cbegin(m) == k, "miter", "iterator range of material %d", m);
    for (int c = 0; c < nc; c++) {
      bool in = std::count(cells.begin(), cells.end(), c);
      T w = in ? cc[c][m] : T(0);
      drv::check(ca(m, c) == w && cb(m, c) == w && ca(c, m, Data_layout::CELL_CENTRIC) == w && cb(c, m, Data_layout::CELL_CENTRIC) == w && cu(m, c) == (in ? mk((T *)0, 5, s) : T(0)), "mread", "value of cell %d material %d", c, m);
      bool t1 = false, t2 = false;
      try { drv::check(&a(m, c) == &a.get_matdata(m)[0] + (std::find(cells.begin(), cells.end(), c) - cells.begin()), "mref", "element of cell %d material %d", c, m); } catch (...) { t1 = true; }
      try { drv::check(&a(c, m, Data_layout::CELL_CENTRIC) == &a(m, c), "mref", "element of cell %d material %d", c, m); } catch (...) { t2 = true; }
      drv::check(t1 == !in && t2 == !in, "mabsent", "writing cell %d material %d: exception %d %d, member %d", c, m, t1, t2, in);
    }
    if (k) {
      int i = g.below(k); T o = a.get_matdata(m)[i], x = mk((T *)0, 77, s + 1);
      a(m, cells[i]) = x;
      drv::check(cp.get_matdata(m)[i] == o && as.get_matdata(m)[i] == x, "malias", "copy or assignment after a write");
      cp.get_matdata(m)[i] = x; drv::check(b.get_matdata(m)[i] == o, "malias", "another vector changed");
    }
  }
  if (a.get_data() != as.get_data() || a.get_data() == cp.get_data()) drv::fail("malias", "data pointers");
}

int main(int argc, char **argv) {
  MPI_Init(&argc, &argv); drv::init(argc, argv);
  int trials = drv::thorough() ? 400 : 60;
  drv::Rng g(drv::seed() * 17 + 19);
  {
    Quiet q;
    for (int t = 0; t < trials; t++) {
      Opt o; o.dim = 2 + t % 2; o.nx = 1 + g.below(3); o.ny = 1 + g.below(3); o.nz = 1; o.ghosts = t % 3; o.seed = t + 1;
      Desc d = make(o);
      auto mesh = std::make_shared<TestMesh>(d, true, true, true, true, true);
      std::shared_ptr<Mesh> m = mesh;
      auto st = State::create(m);
      std::shared_ptr<State> none;
      Entity_kind ks[] = {Entity_kind::NODE, Entity_kind::EDGE, Entity_kind::FACE, Entity_kind::CELL, Entity_kind::SIDE, Entity_kind::WEDGE, Entity_kind::CORNER};
      ET ts[] = {ET::PARALLEL_OWNED, ET::PARALLEL_GHOST, ET::ALL};
      for (auto k : ks) for (auto ty : ts) {
        uni<double, Mesh>(m, k, ty, g.below(2) ? st : none, g, "Mesh", "double");
        uni<int, Mesh>(m, k, ty, g.below(2) ? st : none, g, "Mesh", "int");
        uni<D2, Mesh>(m, k, ty, st, g, "Mesh", "array");
      }
      int nc = d.nc(); std::vector<int> half; for (int c = 0; c < nc; c++) if (d.ct[c] == ET::PARALLEL_OWNED && g.below(2)) half.push_back(c);
      auto tile = make_meshtile(*m, half, t % 2, true, true, true, true, true);
      for (auto k : ks) for (auto ty : ts) uni<int, MeshTile>(tile, k, ty, st, g, "MeshTile", "int");
      std::vector<int> ow, gh; for (int c = 0; c < nc; c++) if (g.below(2)) (d.ct[c] == ET::PARALLEL_OWNED ? ow : gh).push_back(c);
      auto set = make_meshset("cells", *m, Entity_kind::CELL, ow, gh, true);
      for (auto ty : ts) uni<double, MeshSet>(set, Entity_kind::CELL, ty, st, g, "MeshSet", "double");
      int nm = g.below(4);
      for (int i = 0; i < nm; i++) { std::vector<int> cs; for (int c = 0; c < nc; c++) if (g.below(2)) cs.push_back(c); st->add_material("mat" + std::to_string(i), cs); }
      multi<double, Mesh>(m, st, nc, g, "double"); multi<int, Mesh>(m, st, nc, g, "int"); multi<double, MeshTile>(tile, st, nc, g, "double,MeshTile");
    }
  }
  int r = drv::done(); fflush(stdout); MPI_Finalize(); return r;
}
