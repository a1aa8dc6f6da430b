// builds the meshes that C12, C13 and C14 look at: 2D and 3D general meshes (owned and ghost), and lines
#include "meshes.hh"
using namespace tmesh;
typedef std::vector<int> V;
static V srt(V v) { std::sort(v.begin(), v.end()); return v; }
template<class Fn> static void all_meshes(int N, Fn fn) {
  drv::Rng g(drv::seed() * 17 + 3);
  for (int t = 0; t < N; t++) {
    Opt o; o.dim = 2 + t % 2; o.nx = 1 + g.below(4); o.ny = 1 + g.below(3); o.nz = 1 + g.below(2); o.ghosts = t % 4 == 1 ? 1 + g.below(2) : 0; o.seed = t + 11 * drv::seed(); o.jit = t % 3 == 0 ? 0 : .3;
    drv::at("mesh %dD %dx%dx%d ghosts %d seed %d jitter %g", o.dim, o.nx, o.ny, o.nz, o.ghosts, o.seed, o.jit);
    Desc d = make(o); TestMesh m(d, true, true, true, true, true); fn(m, o.dim, false);
  }
  for (int t = 0; t < N / 4; t++) {
    bool sph = t % 2; int n = 2 + g.below(6); double x = sph ? g.real(0, 1) : g.real(-2, 2); std::vector<double> X; for (int i = 0; i < n; i++) { X.push_back(x); x += g.real(.1, 2); }
    drv::at("%s line of %d cells from %.17g", sph ? "spherical" : "cartesian", n - 1, X[0]);
    Mesh_simple m(X, MPI_COMM_WORLD, nullptr, true, true, true, true, true, 0, 0, 0, false, Partitioner_type::INDEX, sph ? JaliGeometry::Geom_type::SPHERICAL : JaliGeometry::Geom_type::CARTESIAN); fn(m, 1, sph);
  }
}
