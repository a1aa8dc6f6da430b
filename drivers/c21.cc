// C21: messages and error policy
#include <sys/wait.h>
#include <climits>
#include "meshes.hh"
#include "MeshFactory.hh"
#include "BoxRegion.hh"
#include "PlaneRegion.hh"
#include "PointRegion.hh"
using namespace Jali; using namespace tmesh;
using namespace Exceptions;

// outcome of an action in a child process: 0 returned, 1 threw, 2 aborted, 3 other
static int outcome(const std::function<void()> &f) {
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (!p) {
    signal(SIGABRT, SIG_DFL); alarm(30);
    int r = 0;
    { Quiet q; try { f(); } catch (...) { r = 1; } }
    _exit(r);
  }
  int st; waitpid(p, &st, 0);
  if (WIFEXITED(st)) return WEXITSTATUS(st) <= 1 ? WEXITSTATUS(st) : 3;
  return WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT ? 2 : 3;
}

int main(int argc, char **argv) {
  MPI_Init(&argc, &argv); drv::init(argc, argv);
  drv::Rng g(drv::seed() * 31 + 21);
  int trials = drv::thorough() ? 20000 : 3000;
  static const int special[] = {0, 1, -1, INT_MAX, INT_MIN, 10, -10, 99999, 1000000000, -1000000000};
  static const double dspecial[] = {0, -0.0, 1, -1, 1e300, -1e-300, 1.5, 123456, 1234567, 0.1, 1e-5, 1e-4, -2.2250738585072014e-308, HUGE_VAL, 100000, 999999.5};
  for (int t = 0; t < trials; t++) {
    std::string want; char b[400];
    int how = t % 3;
    std::string init = how ? std::string(g.below(6), 'a' + g.below(26)) : "";
    Errors::Message m0, m1(init.c_str()), m2(init);
    Errors::Message &m = how == 0 ? m0 : how == 1 ? m1 : m2;
    want = init;
    int n = g.below(9);
    drv::at("message trial %d: initial text of %d, %d pieces", t, (int)init.size(), n);
    for (int i = 0; i < n; i++) {
      switch (g.below(6)) {
        case 0: { int v = g.below(3) ? special[g.below(10)] : g.below(2000000) - 1000000; snprintf(b, sizeof b, "%d", v); want += b; Errors::Message &r = (m << v); if (&r != &m) drv::fail("c21-chain", "append does not return the message"); break; }
        case 1: { double v = g.below(2) ? dspecial[g.below(16)] : g.real(-1e6, 1e6); snprintf(b, sizeof b, "%g", v); want += b; m << v; break; }
        case 2: { std::string s(g.below(40), 'A' + g.below(26)); want += s; m << s.c_str(); break; }
        case 3: { std::string s(g.below(40), '0' + g.below(10)); want += s; m << s; break; }
        case 4: { std::string s = "x%d%s\n\t"; want += s; m.add_data(s); break; }
        default: { m.add_data("tail"); want += "tail"; }
      }
    }
    if (want != m.what()) drv::fail("c21-text", "message is '%.200s', appended '%.200s'", m.what(), want.c_str());
    try { Jali_throw(m); drv::fail("c21-raise", "Jali_throw returned"); } catch (const Errors::Message &e) { if (want != e.what()) drv::fail("c21-thrown", "thrown text '%.200s' wanted '%.200s'", e.what(), want.c_str()); }
    Errors::Message c(m); c << "more";
    if (want != m.what()) drv::fail("c21-copy", "appending to a copy changed the original");
  }
  // policy
  if (exception_behavior() != RAISE) drv::fail("c21-default", "initial policy is not to raise");
  for (int t = 0; t < 400; t++) {
    int w = g.below(4); Exception_action want = RAISE;
    drv::at("policy change %d: %d", t, w);
    if (w == 0) set_exception_behavior_raise(), want = RAISE;
    else if (w == 1) set_exception_behavior_abort(), want = ABORT;
    else { want = w == 2 ? RAISE : ABORT; set_exception_behavior(want); }
    if (exception_behavior() != want) drv::fail("c21-query", "policy set to %d reads %d", want, exception_behavior());
  }
  set_exception_behavior_raise();
  using JaliGeometry::Point;
  std::vector<std::pair<const char *, std::function<void()>>> sites = {
    {"this program", [] { Errors::Message m("x"); Jali_throw(m); }},
    {"BoxRegion", [] { JaliGeometry::BoxRegion r("b", 1, Point(0., 0.), Point(1., 1., 1.)); }},
    {"PlaneRegion", [] { JaliGeometry::PlaneRegion r("p", 1, Point(0., 0.), Point(1., 1., 1.)); }},
    {"PointRegion", [] { JaliGeometry::PointRegion r("p", 1, Point(0., 0.)); r.inside(Point(1., 1., 1.)); }},
    {"MeshFactory 2D brick", [] { MeshFactory f(MPI_COMM_WORLD); f.framework(Simple); f(0., 0., 0., 1., 1., 1., -1, 2, 2); }},
    {"MeshFactory file", [] { MeshFactory f(MPI_COMM_WORLD); f.framework(Simple); f("nofile.exo"); }},
    {"Mesh region", [] { Opt o; o.dim = 2; o.nx = 2; o.ny = 2; Desc d = make(o); TestMesh m(d, true, false, false, false, false); m.get_set_size("no such region", Entity_kind::CELL, ET::PARALLEL_OWNED); }},
  };
  for (int pass = 0; pass < 3; pass++) {
    for (auto &s : sites) {
      drv::at("policy pass %d: error raised by %s", pass, s.first);
      int a = outcome([&] { set_exception_behavior_raise(); s.second(); });
      int b = outcome([&] { set_exception_behavior_abort(); s.second(); });
      int c = outcome([&] { set_exception_behavior(ABORT); set_exception_behavior(RAISE); s.second(); });
      drv::sample("%s: raise->%d abort->%d", s.first, a, b);
      if (a == 0 && b == 0) { continue; }   // no error here
      if (a != 1) drv::fail("c21-site", "%s under the raise policy: outcome %d (1 = exception)", s.first, a);
      if (b != 2) drv::fail("c21-site", "%s under the abort policy: outcome %d (2 = aborted)", s.first, b);
      if (c != 1) drv::fail("c21-site", "%s after abort then raise: outcome %d (1 = exception)", s.first, c);
    }
  }
  int r = drv::done(); fflush(stdout); MPI_Finalize(); return r;
}
