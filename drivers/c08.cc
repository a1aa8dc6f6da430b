// C08: block_partition_regular_mesh of the real code: every grid and block count in range, blocks must tile the grid.
#include "drv.hh"
#include "block_partition.hh"
using namespace drv;
static void one(int dim, const int *n, int nb) {
  int cells = 1; for (int k = 0; k < dim; k++) cells *= n[k];
  at("dim %d grid %d %d %d blocks %d", dim, n[0], dim > 1 ? n[1] : 0, dim > 2 ? n[2] : 0, nb);
  double domain[6] = {0, 1, 0, 1, 0, 1};
  std::vector<std::array<int, 3>> start, num;
  // results must not depend on what the output vectors held before
  if (nb % 2) { start.resize(5, {{7, 7, 7}}); num.resize(9, {{-3, 2, 8}}); }
  int ok = Jali::block_partition_regular_mesh(dim, domain, n, nb, &start, &num);
  check(ok == 1, "block-status", "returned %d", ok);
  if (!check((int)start.size() == nb && (int)num.size() == nb, "block-count", "%d starts, %d sizes, %d requested", (int)start.size(), (int)num.size(), nb)) return;
  std::vector<int> hit(cells, 0);
  int N[3] = {1, 1, 1}; for (int k = 0; k < dim; k++) N[k] = n[k];
  for (int b = 0; b < nb; b++) {
    bool in = true;
    for (int k = 0; k < dim; k++) {
      if (!check(num[b][k] >= 1, "block-empty", "block %d has %d cells in direction %d", b, num[b][k], k)) in = false;
      if (!check(start[b][k] >= 0 && start[b][k] + num[b][k] <= n[k], "block-outside", "block %d covers %d..%d in direction %d", b, start[b][k], start[b][k] + num[b][k], k)) in = false;
    }
    if (!in) return;
    int lo[3] = {0, 0, 0}, hi[3] = {1, 1, 1};
    for (int k = 0; k < dim; k++) { lo[k] = start[b][k]; hi[k] = lo[k] + num[b][k]; }
    for (int i = lo[0]; i < hi[0]; i++) for (int j = lo[1]; j < hi[1]; j++) for (int l = lo[2]; l < hi[2]; l++) hit[(i * N[1] + j) * N[2] + l]++;
  }
  for (int i = 0; i < N[0]; i++) for (int j = 0; j < N[1]; j++) for (int l = 0; l < N[2]; l++) {
    int h = hit[(i * N[1] + j) * N[2] + l];
    if (h != 1) { fail(h ? "block-overlap" : "block-gap", "cell (%d %d %d) is in %d blocks", i, j, l, h); return; }
  }
}
int main(int argc, char **argv) {
  init(argc, argv);
  bool th = thorough();
  sample("dim 3 grid 5 3 4 blocks 1..60"); sample("dim 2 grid 7 7 blocks 1..49");
  for (int a = 1; a <= (th ? 200 : 64); a++) for (int b = 1; b <= a; b++) { int n[3] = {a, 0, 0}; one(1, n, b); }
  int m2 = th ? 14 : 9;
  for (int a = 1; a <= m2; a++) for (int c = 1; c <= m2; c++) for (int b = 1; b <= a * c; b++) { int n[3] = {a, c, 0}; one(2, n, b); }
  int m3 = th ? 7 : 5;
  for (int a = 1; a <= m3; a++) for (int c = 1; c <= m3; c++) for (int d = 1; d <= m3; d++) for (int b = 1; b <= a * c * d; b++) { int n[3] = {a, c, d}; one(3, n, b); }
  // long thin and larger grids
  int big[][3] = {{64, 1, 1}, {1, 1, 64}, {1, 40, 3}, {32, 32, 1}, {17, 2, 9}, {8, 8, 8}, {12, 12, 6}, {16, 16, 16}, {2, 31, 2}};
  for (auto& n : big) {
    int c = n[0] * n[1] * n[2];
    for (int b = 1; b <= c && b <= (th ? 5000 : 300); b++) one(3, n, b);
    one(3, n, c);
    int n2[3] = {n[0], n[1], 0}; for (int b = 1; b <= n[0] * n[1] && b <= 300; b++) one(2, n2, b);
  }
  return done();
}
