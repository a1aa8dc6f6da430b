// An independent polygonal/polyhedral mesh description and a Jali::Mesh that serves it: exercises Mesh.cc, MeshSet.cc and
// MeshTile.cc on meshes with edges, ghosts, general cells. (Bounded drivers only.)
#ifndef MESHES_HH_
#define MESHES_HH_
#include <mpi.h>
#include <numeric>
#include "drv.hh"
#include "Mesh.hh"
#include "Mesh_simple.hh"
#include "MeshSet.hh"
#include "MeshTile.hh"
#include "errors.hh"

namespace tmesh {
using namespace Jali;
using JaliGeometry::Point;
typedef std::array<double, 3> X3;
typedef Entity_type ET;

struct Desc {
  int dim = 3;
  std::vector<X3> X;
  std::vector<std::vector<int>> fn;                       // nodes of a face, in the order of its natural normal
  std::vector<std::vector<std::pair<int, int>>> cf;       // faces of a cell with direction
  std::vector<std::vector<int>> cn;                       // nodes of a cell (2D: ccw)
  std::vector<ET> ct, ft, nt, et;                         // ownership
  // derived
  std::vector<std::array<int, 2>> en;
  std::vector<std::vector<std::pair<int, int>>> fe;       // edges of a face with direction
  std::vector<std::vector<int>> ce;                       // edges of a cell
  std::vector<std::vector<std::pair<int, int>>> ce2;      // 2D: edges of a cell with direction
  int nn() const { return (int)X.size(); }
  int nf() const { return (int)fn.size(); }
  int nc() const { return (int)cf.size(); }
  int ne() const { return (int)en.size(); }
};

// 2D base mesh: nx*ny quads (jittered), some split into triangles, some neighbours merged into hexagons
struct Base2 { std::vector<X3> X; std::vector<std::vector<int>> poly; };
inline Base2 base2(int nx, int ny, drv::Rng &g, bool polys, double jit) {
  Base2 b;
  for (int j = 0; j <= ny; j++) for (int i = 0; i <= nx; i++) {
    double a = jit * g.real(-.5, .5), c = jit * g.real(-.5, .5);
    b.X.push_back(X3{{i + a, j + c, 0}});
  }
  auto id = [&](int i, int j) { return i + j * (nx + 1); };
  for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) {
    int a = id(i, j), c = id(i + 1, j), d = id(i + 1, j + 1), e = id(i, j + 1);
    int w = polys ? g.below(4) : 0;
    if (w == 1) { b.poly.push_back({a, c, d}); b.poly.push_back({a, d, e}); }
    else if (w == 2 && i + 1 < nx) {      // merge with the right neighbour: a hexagon with two collinear-ish nodes
      int f = id(i + 2, j), h = id(i + 2, j + 1);
      b.poly.push_back({a, c, f, h, d, e}); i++;
    } else b.poly.push_back({a, c, d, e});
  }
  return b;
}

inline void derive(Desc &d) {
  int nn = d.nn();
  d.en.clear(); d.fe.assign(d.nf(), {}); d.ce.assign(d.nc(), {}); d.ce2.assign(d.nc(), {});
  if (d.dim == 2) {
    for (int f = 0; f < d.nf(); f++) { d.en.push_back({{d.fn[f][0], d.fn[f][1]}}); d.fe[f].push_back({f, 1}); }
    for (int c = 0; c < d.nc(); c++) for (auto &p : d.cf[c]) { d.ce[c].push_back(p.first); d.ce2[c].push_back(p); }
    d.et = d.ft;
  } else {
    std::map<std::pair<int, int>, int> m;
    for (int f = 0; f < d.nf(); f++) {
      int k = d.fn[f].size();
      for (int i = 0; i < k; i++) {
        int a = d.fn[f][i], b = d.fn[f][(i + 1) % k];
        auto key = std::make_pair(std::min(a, b), std::max(a, b));
        if (!m.count(key)) { m[key] = d.en.size(); if ((a * 7 + b) % 3) d.en.push_back({{a, b}}); else d.en.push_back({{b, a}}); }
        int e = m[key];
        d.fe[f].push_back({e, d.en[e][0] == a ? 1 : -1});
      }
    }
    for (int c = 0; c < d.nc(); c++) {
      std::set<int> s;
      for (auto &p : d.cf[c]) for (auto &q : d.fe[p.first]) s.insert(q.first);
      d.ce[c].assign(s.begin(), s.end());
    }
    d.et.assign(d.ne(), ET::PARALLEL_GHOST);
    for (int f = 0; f < d.nf(); f++) if (d.ft[f] == ET::PARALLEL_OWNED) for (auto &q : d.fe[f]) d.et[q.first] = ET::PARALLEL_OWNED;
    (void)nn;
  }
}

// renumber so that owned come first within each kind (plus a random shuffle), and orient faces randomly
inline std::vector<int> order(std::vector<ET> const &t, drv::Rng &g) {
  std::vector<int> o(t.size()); std::iota(o.begin(), o.end(), 0);
  for (int i = (int)o.size() - 1; i > 0; i--) std::swap(o[i], o[g.below(i + 1)]);
  std::stable_sort(o.begin(), o.end(), [&](int a, int b) { return (int)t[a] < (int)t[b]; });
  std::vector<int> nw(t.size()); for (size_t i = 0; i < o.size(); i++) nw[o[i]] = i;
  return nw;
}

struct Opt { int nx = 2, ny = 2, nz = 1, dim = 3; bool polys = true; double jit = .3; int ghosts = 0; int seed = 1; bool bghost = false; };

inline Desc make(Opt const &o) {
  drv::Rng g(o.seed * 7919 + o.nx * 31 + o.ny * 17 + o.nz * 5 + o.dim);
  for (int i = 0; i < 5; i++) g.next();
  Base2 b = base2(o.nx, o.ny, g, o.polys, o.jit);
  Desc d; d.dim = o.dim;
  int nb = b.X.size();
  std::vector<std::vector<std::vector<int>>> cellfaces;   // outward oriented face node lists
  if (o.dim == 2) {
    d.X = b.X;
    for (auto &p : b.poly) {
      d.cn.push_back(p);
      std::vector<std::vector<int>> fs;
      for (size_t i = 0; i < p.size(); i++) fs.push_back({p[i], p[(i + 1) % p.size()]});
      cellfaces.push_back(fs);
    }
  } else {
    for (int k = 0; k <= o.nz; k++) for (auto &x : b.X) d.X.push_back(X3{{x[0] + o.jit * .2 * k, x[1], k + o.jit * .3 * (x[0] - x[1] * .5) / (o.nx + o.ny)}});
    for (int k = 0; k < o.nz; k++) for (auto &p : b.poly) {
      int n = p.size();
      std::vector<int> lo, hi;
      for (int v : p) { lo.push_back(v + k * nb); hi.push_back(v + (k + 1) * nb); }
      std::vector<int> all = lo; all.insert(all.end(), hi.begin(), hi.end());
      d.cn.push_back(all);
      std::vector<std::vector<int>> fs;
      fs.push_back(std::vector<int>(lo.rbegin(), lo.rend()));
      fs.push_back(hi);
      for (int i = 0; i < n; i++) { int j = (i + 1) % n; fs.push_back({lo[i], lo[j], hi[j], hi[i]}); }
      cellfaces.push_back(fs);
    }
  }
  // unique faces, random natural orientation
  std::map<std::vector<int>, int> m;
  d.cf.assign(cellfaces.size(), {});
  for (size_t c = 0; c < cellfaces.size(); c++) for (auto &f : cellfaces[c]) {
    std::vector<int> key = f; std::sort(key.begin(), key.end());
    auto it = m.find(key);
    if (it == m.end()) {
      m[key] = d.fn.size();
      bool flip = g.below(2);
      std::vector<int> nf = f; int r = g.below(f.size());
      if (o.dim == 3) std::rotate(nf.begin(), nf.begin() + r, nf.end());
      if (flip) std::reverse(nf.begin(), nf.end());
      d.fn.push_back(nf);
      d.cf[c].push_back({(int)d.fn.size() - 1, flip ? -1 : 1});
    } else {
      int f0 = it->second, dir = 0;
      // the other cell's direction, negated
      for (size_t c2 = 0; c2 <= c; c2++) for (auto &q : d.cf[c2]) if (q.first == f0) dir = -q.second;
      d.cf[c].push_back({f0, dir});
    }
  }
  // ownership
  int nc = d.nc();
  d.ct.assign(nc, ET::PARALLEL_OWNED);
  for (int c = 0; c < nc; c++) { if (o.ghosts && g.below(4) < o.ghosts) d.ct[c] = ET::PARALLEL_GHOST; if (o.bghost && g.below(4) == 0) d.ct[c] = ET::BOUNDARY_GHOST; }
  d.ct[g.below(nc)] = ET::PARALLEL_OWNED;
  d.ft.assign(d.nf(), ET::PARALLEL_GHOST); d.nt.assign(d.nn(), ET::PARALLEL_GHOST);
  for (int c = 0; c < nc; c++) if (d.ct[c] == ET::PARALLEL_OWNED) {
    for (auto &q : d.cf[c]) if (!o.ghosts || g.below(5)) d.ft[q.first] = ET::PARALLEL_OWNED;
    for (int n : d.cn[c]) if (!o.ghosts || g.below(5)) d.nt[n] = ET::PARALLEL_OWNED;
  }
  // renumber
  auto pn = order(d.nt, g), pf = order(d.ft, g), pc = order(d.ct, g);
  Desc r; r.dim = d.dim;
  r.X.resize(d.nn()); r.nt.resize(d.nn()); r.fn.resize(d.nf()); r.ft.resize(d.nf()); r.cf.resize(nc); r.cn.resize(nc); r.ct.resize(nc);
  for (int n = 0; n < d.nn(); n++) { r.X[pn[n]] = d.X[n]; r.nt[pn[n]] = d.nt[n]; }
  for (int f = 0; f < d.nf(); f++) { r.ft[pf[f]] = d.ft[f]; for (int n : d.fn[f]) r.fn[pf[f]].push_back(pn[n]); }
  for (int c = 0; c < nc; c++) { r.ct[pc[c]] = d.ct[c]; for (auto &q : d.cf[c]) r.cf[pc[c]].push_back({pf[q.first], q.second}); for (int n : d.cn[c]) r.cn[pc[c]].push_back(pn[n]); }
  derive(r);
  // edges: owned first too
  if (r.dim == 3) {
    auto pe = order(r.et, g);
    Desc s = r;
    for (int e = 0; e < r.ne(); e++) { s.en[pe[e]] = r.en[e]; s.et[pe[e]] = r.et[e]; }
    for (auto &v : s.fe) for (auto &q : v) q.first = pe[q.first];
    for (auto &v : s.ce) for (auto &q : v) q = pe[q];
    r = s;
  }
  return r;
}

template<class V> void keep(V const &v, std::vector<ET> const &t, ET ty, std::vector<int> *out) {
  out->clear();
  for (auto x : v) if (ty == ET::ALL || t[x] == ty) out->push_back(x);
}

class TestMesh : public Mesh {
 public:
  Desc d;
  std::vector<std::vector<int>> nc, nf, fc;
  TestMesh(Desc const &desc, bool faces, bool edges, bool sides, bool wedges, bool corners, int tiles = 0, int layers = 0,
           Partitioner_type p = Partitioner_type::INDEX, JaliGeometry::GeometricModelPtr gm = nullptr)
      : Mesh(faces, edges, sides, wedges, corners, tiles, layers, 1, false, p, JaliGeometry::Geom_type::CARTESIAN, MPI_COMM_WORLD), d(desc) {
    set_space_dimension(d.dim); set_manifold_dimension(d.dim);
    if (gm) set_geometric_model(gm);
    nc.resize(d.nn()); nf.resize(d.nn()); fc.resize(d.nf());
    for (int c = 0; c < d.nc(); c++) { for (int n : d.cn[c]) nc[n].push_back(c); for (auto &q : d.cf[c]) fc[q.first].push_back(c); }
    for (int f = 0; f < d.nf(); f++) for (int n : d.fn[f]) nf[n].push_back(f);
    auto fill = [&](std::vector<ET> const &t, std::vector<int> &o, std::vector<int> &g, std::vector<int> &a) {
      for (size_t i = 0; i < t.size(); i++) if (t[i] == ET::PARALLEL_OWNED) o.push_back(i);
      for (size_t i = 0; i < t.size(); i++) if (t[i] == ET::PARALLEL_GHOST) g.push_back(i);
      a = o; a.insert(a.end(), g.begin(), g.end());
      for (size_t i = 0; i < t.size(); i++) if (t[i] == ET::BOUNDARY_GHOST) { a.push_back(i); cellids_boundary_ghost_.push_back(i); }
    };
    fill(d.nt, nodeids_owned_, nodeids_ghost_, nodeids_all_);
    fill(d.ct, cellids_owned_, cellids_ghost_, cellids_all_);
    if (faces_requested) fill(d.ft, faceids_owned_, faceids_ghost_, faceids_all_);
    if (edges_requested) fill(d.et, edgeids_owned_, edgeids_ghost_, edgeids_all_);
    cache_extra_variables();
    if (tiles) build_tiles();
  }
  Cell_type cell_get_type(const Entity_ID c) const {
    int n = d.cn[c].size(), f = d.cf[c].size();
    if (d.dim == 2) return n == 3 ? Cell_type::TRI : n == 4 ? Cell_type::QUAD : Cell_type::POLYGON;
    return n == 8 && f == 6 ? Cell_type::HEX : n == 6 && f == 5 ? Cell_type::PRISM : Cell_type::POLYHED;
  }
  Entity_ID GID(const Entity_ID l, const Entity_kind) const { return l; }
  void cell_get_nodes(const Entity_ID c, Entity_ID_List *n) const { *n = d.cn[c]; }
  void face_get_nodes(const Entity_ID f, Entity_ID_List *n) const { *n = d.fn[f]; }
  void node_get_cells(const Entity_ID n, const Entity_type t, Entity_ID_List *o) const { keep(nc[n], d.ct, t, o); }
  void node_get_faces(const Entity_ID n, const Entity_type t, Entity_ID_List *o) const { keep(nf[n], d.ft, t, o); }
  void node_get_cell_faces(const Entity_ID n, const Entity_ID c, const Entity_type t, Entity_ID_List *o) const {
    std::vector<int> v;
    for (auto &q : d.cf[c]) if (std::count(d.fn[q.first].begin(), d.fn[q.first].end(), n)) v.push_back(q.first);
    keep(v, d.ft, t, o);
  }
  void cell_get_face_adj_cells(const Entity_ID c, const Entity_type t, Entity_ID_List *o) const {
    std::vector<int> v;
    for (auto &q : d.cf[c]) for (int c2 : fc[q.first]) if (c2 != c) v.push_back(c2);
    keep(v, d.ct, t, o);
  }
  void cell_get_node_adj_cells(const Entity_ID c, const Entity_type t, Entity_ID_List *o) const {
    std::set<int> s;
    for (int n : d.cn[c]) for (int c2 : nc[n]) if (c2 != c) s.insert(c2);
    keep(s, d.ct, t, o);
  }
  Point pt(int n) const { return d.dim == 2 ? Point(d.X[n][0], d.X[n][1]) : Point(d.X[n][0], d.X[n][1], d.X[n][2]); }
  void node_get_coordinates(const Entity_ID n, Point *p) const { *p = pt(n); }
  void face_get_coordinates(const Entity_ID f, std::vector<Point> *o) const { o->clear(); for (int n : d.fn[f]) o->push_back(pt(n)); }
  void cell_get_coordinates(const Entity_ID c, std::vector<Point> *o) const { o->clear(); for (int n : d.cn[c]) o->push_back(pt(n)); }
  void node_set_coordinates(const Entity_ID n, const Point p) { for (int i = 0; i < d.dim; i++) d.X[n][i] = p[i]; }
  void node_set_coordinates(const Entity_ID n, const double *p) { for (int i = 0; i < d.dim; i++) d.X[n][i] = p[i]; }

 protected:
  static void split(std::vector<std::pair<int, int>> const &v, Entity_ID_List *a, std::vector<dir_t> *b) {
    a->clear(); if (b) b->clear();
    for (auto &q : v) { a->push_back(q.first); if (b) b->push_back(q.second); }
  }
  void cell_get_faces_and_dirs_internal(const Entity_ID c, Entity_ID_List *a, std::vector<dir_t> *b, const bool = false) const { split(d.cf[c], a, b); }
  void face_get_cells_internal(const Entity_ID f, const Entity_type t, Entity_ID_List *o) const { keep(fc[f], d.ct, t, o); }
  void face_get_edges_and_dirs_internal(const Entity_ID f, Entity_ID_List *a, std::vector<dir_t> *b, const bool = true) const { split(d.fe[f], a, b); }
  void cell_get_edges_internal(const Entity_ID c, Entity_ID_List *o) const { *o = d.ce[c]; }
  void cell_2D_get_edges_and_dirs_internal(const Entity_ID c, Entity_ID_List *a, std::vector<dir_t> *b) const { split(d.ce2[c], a, b); }
  void edge_get_nodes_internal(const Entity_ID e, Entity_ID *a, Entity_ID *b) const { *a = d.en[e][0]; *b = d.en[e][1]; }
  void get_labeled_set_entities(const JaliGeometry::LabeledSetRegionPtr, const Entity_kind k, Entity_ID_List *o, Entity_ID_List *g) const {
    // a fixed label: every third entity
    o->clear(); g->clear();
    std::vector<ET> const &t = k == Entity_kind::CELL ? d.ct : k == Entity_kind::FACE ? d.ft : d.nt;
    for (size_t i = 0; i < t.size(); i += 3) if (t[i] != ET::BOUNDARY_GHOST) (t[i] == ET::PARALLEL_OWNED ? o : g)->push_back(i);
  }
};

// silences cerr/cout chatter of the code under test
struct Quiet {
  std::streambuf *a, *b;
  Quiet() : a(std::cerr.rdbuf(nullptr)), b(std::cout.rdbuf(nullptr)) {}
  ~Quiet() { std::cerr.rdbuf(a); std::cout.rdbuf(b); }
};
}  // namespace tmesh
#endif
