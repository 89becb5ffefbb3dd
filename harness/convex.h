// Concrete oracle for convex shapes in double precision, used only when a counterexample is replayed or searched for natively.
#ifndef VC_CONVEX_H_
#define VC_CONVEX_H_
#include <algorithm>
#include <cmath>
struct Convex { double x[4], y[4]; int n; };
// Greatest separation over the axes of both shapes (negative: least overlap).
inline double separation(const Convex& a, const Convex& b) {
  double best = -1e300;
  auto axis = [&](double ux, double uy) {
    double l = std::hypot(ux, uy);
    if (l < 1e-9) return;
    ux /= l; uy /= l;
    double lo[2] = {1e300, 1e300}, hi[2] = {-1e300, -1e300};
    for (int k = 0; k < 2; ++k) { const Convex& c = k ? b : a; for (int i = 0; i < c.n; ++i) { double h = c.x[i] * ux + c.y[i] * uy; lo[k] = std::min(lo[k], h); hi[k] = std::max(hi[k], h); } }
    best = std::max(best, std::max(lo[0] - hi[1], lo[1] - hi[0]));
  };
  axis(1, 0); axis(0, 1);
  for (const Convex* c : {&a, &b}) for (int i = 0; i < c->n; ++i) {
    int j = (i + 1) % c->n;
    double ux = c->x[j] - c->x[i], uy = c->y[j] - c->y[i];
    axis(ux, uy); axis(-uy, ux);
  }
  return best;
}
inline double point_distance(double px, double py, double ax, double ay, double bx, double by) {
  double ux = bx - ax, uy = by - ay, n = ux * ux + uy * uy, t = n == 0 ? 0 : ((px - ax) * ux + (py - ay) * uy) / n;
  t = std::min(1.0, std::max(0.0, t));
  return std::hypot(px - ax - t * ux, py - ay - t * uy);
}
// Distance of shapes that do not overlap.
inline double convex_distance(const Convex& a, const Convex& b) {
  double best = 1e300;
  for (int k = 0; k < 2; ++k) {
    const Convex &p = k ? b : a, &q = k ? a : b;
    for (int i = 0; i < p.n; ++i) for (int j = 0; j < q.n; ++j) best = std::min(best, point_distance(p.x[i], p.y[i], q.x[j], q.y[j], q.x[(j + 1) % q.n], q.y[(j + 1) % q.n]));
  }
  return best;
}
#endif
