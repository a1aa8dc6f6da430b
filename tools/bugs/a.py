GEO = ['src/geometry/Geometry.cc']
ERR = ['src/error_handling/errors.cc', 'src/error_handling/exceptions.cc']
REG = ['src/geometry/' + f for f in ('BoxRegion.cc', 'Domain.cc', 'GeometricModel.cc', 'Geometry.cc', 'LabeledSetRegion.cc',
                                     'LogicalRegion.cc', 'PlaneRegion.cc', 'PointRegion.cc', 'PolygonRegion.cc', 'Region.cc')]
H = '#include <cstdio>\n#include <cmath>\n#include <vector>\n#include <string>\n'
BUGS = [
  breaks='operator*= takes its factor by reference, so a factor living in the point itself is overwritten before the later coordinates are scaled',
  edits=[('src/geometry/Point.hh', 'Point& operator*=(const double c) {', 'Point& operator*=(const double& c) {')],
  demo=H + '''#include "Point.hh"
int main() { JaliGeometry::Point p(2.0, 3.0, 5.0); p *= p[0]; return (p[0] == 4 && p[1] == 6 && p[2] == 10) ? 0 : 1; }
'''),
 dict(id='c04-sub-dim', prop='C04', needs='subtracting two one-dimensional points and using the dimension or y() of the result after it was stored over a 2D/3D point',
  breaks='assignment copies only the coordinates, so assigning a 2D point over a 3D one keeps the old dimension',
  edits=[('src/geometry/Point.hh', '''  Point& operator=(const Point& p) {
    d = p.d;
''', '''  Point& operator=(const Point& p) {
    if (d < p.d) d = p.d;
''')],
  demo=H + '''#include "Point.hh"
using JaliGeometry::Point;
int main() { Point a(1.0, 2.0, 3.0), b(4.0, 5.0); a = b; return (a.dim() == 2 && a.z() == 0.0) ? 0 : 1; }
'''),
 dict(id='c05-mixed-faces', prop='C05', needs='a polyhedron whose faces have different numbers of nodes, at least two of them with more than three',
  breaks='the face centre is averaged with the node count of the first face', srcs=GEO,
  edits=[('src/geometry/Geometry.cc', '''            fcenter /= nfnodes[i];

            for (int j = 0; j < nfnodes[i]; ++j) {  // for each edge of face

              // form tet from edge of face, face center and cell center
''', '''            fcenter /= nfnodes[nf-1] > 3 ? nfnodes[nf-1] : nfnodes[i];

            for (int j = 0; j < nfnodes[i]; ++j) {  // for each edge of face

              // form tet from edge of face, face center and cell center
''')],
  demo=H + '''#include "Geometry.hh"
using namespace JaliGeometry;
// pentagonal prism of height 2 : two pentagons and five quads
int main() {
  double q[5][2] = {{0,0},{2,0},{2,1},{1,2},{0,1}};     // area 2 + 1 = 3
  std::vector<Point> cc; for (int z = 0; z < 2; z++) for (auto &p : q) cc.push_back(Point(p[0], p[1], 2.0*z));
  std::vector<unsigned> nn; std::vector<Point> fc;
  for (int i = 0; i < 5; i++) { int j = (i+1)%5; nn.push_back(4); for (int k : {i, j, j+5, i+5}) fc.push_back(cc[k]); }
  nn.push_back(5); for (int i = 4; i >= 0; i--) fc.push_back(cc[i]);
  nn.push_back(5); for (int i = 0; i < 5; i++) fc.push_back(cc[5+i]);
  double v; Point c(3); polyhed_get_vol_centroid(cc, 7, nn, fc, &v, &c);
  printf("%g\\n", v); return std::fabs(v - 6.0) < 1e-9 ? 0 : 1; }
'''),
 dict(id='c06-tri-offset', prop='C06', needs='a polyhedron with a triangular face before a face with more nodes, and a point outside that only the later face excludes',
  breaks='the face offset is no longer advanced past triangular faces', srcs=GEO,
  edits=[('src/geometry/Geometry.cc', '''          if (tvolume < 0.0)
            return false;
        } else {
''', '''          if (tvolume < 0.0)
            return false;
          if (i+1 < nf && nfnodes[i+1] > 3) continue;
        } else {
''')],
  demo=H + '''#include "Geometry.hh"
using namespace JaliGeometry;
int main() {   // triangular prism, triangles first
  std::vector<Point> c = {Point(0,0,0),Point(1,0,0),Point(0,1,0),Point(0,0,1),Point(1,0,1),Point(0,1,1)};
  std::vector<unsigned> nn = {3,3,4,4,4}; int id[] = {0,2,1, 3,4,5, 0,1,4,3, 1,2,5,4, 2,0,3,5};
  std::vector<Point> f; for (int i : id) f.push_back(c[i]);
  for (double x = -1.05; x < 2; x += .3) for (double y = -1.05; y < 2; y += .3) for (double z = -1.05; z < 2; z += .3) {
    bool e = x > 0 && y > 0 && x + y < 1 && z > 0 && z < 1;
    if (point_in_polyhed(Point(x, y, z), c, 5, nn, f) != e) { printf("%g %g %g\\n", x, y, z); return 1; } }
  return 0; }
'''),
 dict(id='c07-box-order', prop='C07', needs='a box region given by two corners that are ordered differently in different coordinates (e.g. low-high, high-low)',
  breaks='the order of the corners is taken from the first coordinate and used for all of them', srcs=ERR + REG,
  edits=[('src/geometry/BoxRegion.cc', '''    result = result && between_(p[i], p0_[i], p1_[i]);
''', '''    result = result && (p0_[0] < p1_[0] ?
                        between_(p[i], p0_[i], p1_[i] > p0_[i] ? p1_[i] : p0_[i]) :
                        between_(p[i], p1_[i], p0_[i]));
''')],
  demo=H + '''#include "BoxRegion.hh"
using namespace JaliGeometry;
int main() { BoxRegion b("b", 1, Point(0.0, 4.0, 0.0), Point(2.0, 1.0, 3.0)); 
  return (b.inside(Point(1.0, 2.0, 1.0)) && !b.inside(Point(1.0, 5.0, 1.0)) && b.inside(Point(1.0, 1.5, 2.0))) ? 0 : 1; }
'''),
 dict(id='c07-find-first', prop='C07', needs='a geometric model with two regions of the same name (or a copy of one), looked up by that name',
  breaks='lookup by name scans from the back, so the last region of a name is found instead of the first', srcs=ERR + REG,
  edits=[('src/geometry/GeometricModel.cc', '''  for (int i = 0; i < Regions.size(); i++)
    {
      RegionPtr r = Regions[i];
      if (r->name() == name)
        return r;
    }
''', '''  for (int i = static_cast<int>(Regions.size())-1; i >= 0; i--)
    {
      RegionPtr r = Regions[i];
      if (r->name() == name)
        return r;
    }
''')],
  demo=H + '''#include "GeometricModel.hh"
#include "BoxRegion.hh"
using namespace JaliGeometry;
int main() { GeometricModel g(3); RegionPtr a = new BoxRegion("r", 1, Point(0.,0.,0.), Point(1.,1.,1.)), b = new BoxRegion("r", 2, Point(0.,0.,0.), Point(2.,2.,2.));
  g.Add_Region(a); g.Add_Region(b); return (g.FindRegion(std::string("r")) == a) ? 0 : 1; }
'''),
]
