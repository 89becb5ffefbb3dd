// AffineTransform::Apply(Quad): every corner of the result is the transformed corner.
// Over the contract of Angle::Normalized (P10): the result is in [0, 2pi) and is the same direction.
// VC-SOURCES: ink/geometry/affine_transform.cc ink/geometry/rect.cc ink/geometry/segment.cc ink/geometry/vec.cc ink/geometry/quad.cc ink/geometry/angle.cc ink/geometry/triangle.cc
// VC-STUB: ^ink::Angle::Normalized\(\) const$ => vcstub_Normalized
// VC-ASSUME: contract of Angle::Normalized used by P14_quad: same direction, in [0, 2pi) (proved in P10 with the float constant 2pi in place of the real one)
#include "geo.h"
#include "ink/geometry/affine_transform.h"
static const float k2Pi = 6.28318530717959f;
#ifdef VC_SYMBOLIC
extern "C" __attribute__((used)) Angle vcstub_Normalized(const Angle* a) {
  float r = a->ValueInRadians();
  float f = vc_float("normalized"); vc_assume((f >= 0) & (f < k2Pi));
  vc_assume((std::cos(f) == std::cos(r)) & (std::sin(f) == std::sin(r)));
  return Angle::Radians(f);
}
#endif
static float mod(const char* n) { float f = fin(n); if (vc_mode() == 3) vc_assume((std::fabs(f) < 10) & ((f == 0) | (std::fabs(f) > 0.1f))); return f; }
static Point mpt() { float x = mod("px"); float y = mod("py"); return {x, y}; }
static float ang() { float r = vc_float("r"); vc_assume((r >= 0) & (r < k2Pi)); return r; }
static void run(bool zw, bool zh) {
  float a = mod("a"), b = mod("b"), c = mod("c"), d = mod("d"), e = mod("e"), f = mod("f");
  AffineTransform t(a, b, c, d, e, f);
  float det = a * e - b * d;
  vc_assume(det != 0);
  if (vc_mode() == 3) vc_assume(std::fabs(det) > 0.1f);
  Point k = mpt(); float w = zw ? 0 : mod("w"), h = zh ? 0 : mod("h"), r = ang(), s = mod("shear");
  if (!zw) vc_assume(w > 0);
  if (!zh) vc_assume(h != 0);
  Quad q = Quad::FromCenterDimensionsRotationAndShear(k, w, h, Angle::Radians(r), s);
  Quad p = t.Apply(q);
  auto [u, v] = q.SemiAxes();
  auto [nu, nv] = p.SemiAxes();
  float ux = a * u.x + b * u.y, uy = d * u.x + e * u.y, vx = a * v.x + b * v.y, vy = d * v.x + e * v.y;
  Point nc = t.Apply(k);
  const float S = 1e6f;
  vc_assert(vc_near(p.Center().x, nc.x, S) & vc_near(p.Center().y, nc.y, S), "Apply(quad) transforms the centre");
  vc_assert((p.Width() == 0) == zw, "a quad keeps a zero width");
  vc_assert((p.Height() == 0) == zh, "a quad keeps a zero height");
  vc_assert(vc_near(nu.x, ux, S) & vc_near(nu.y, uy, S), "lemma: Apply(quad) transforms the first semi-axis");
  if (vc_mode() == 1 && !zh) {
    // ghost lemmas: |Mu| (cos, sin) = Mu; the height and shear express Mv in the frame of Mu
    float c0 = std::cos(r), s0 = std::sin(r);
    float px = zw ? a * c0 + b * s0 : ux, py = zw ? d * c0 + e * s0 : uy;  // image of the first axis or of its direction
    float L = std::sqrt(px * px + py * py), C = std::cos(p.Rotation().ValueInRadians()), N = std::sin(p.Rotation().ValueInRadians());
    vc_assert((L * C == px) & (L * N == py), "lemma: direction");
    vc_assert(L * L == px * px + py * py, "lemma: length");
    vc_assert(L != 0, "lemma: axis does not collapse");
    float dot = px * vx + py * vy, cr = px * vy - py * vx;
    float H = p.Height(), K = p.ShearFactor();
    vc_assert(H * L == 2 * cr, "lemma: height");
    vc_assert(K * cr == dot, "lemma: shear");
    vc_assert((nv.x == H / 2 * (K * C - N)) & (nv.y == H / 2 * (K * N + C)), "lemma: second axis");
    float gl = vc_ghost(L), gc = vc_ghost(C), gn = vc_ghost(N), gh = vc_ghost(H), gk = vc_ghost(K), gx = vc_ghost(nv.x), gy = vc_ghost(nv.y);
    float gpx = vc_ghost(px), gpy = vc_ghost(py), gvx = vc_ghost(vx), gvy = vc_ghost(vy);
    vc_assert((gl * gc == gpx) & (gl * gn == gpy) & (gl * gl == gpx * gpx + gpy * gpy) & (gl != 0), "lemma: ghost direction");
    vc_assert((gh * gl == 2 * (gpx * gvy - gpy * gvx)) & (gk * (gpx * gvy - gpy * gvx) == gpx * gvx + gpy * gvy), "lemma: ghost height and shear");
    vc_assert((gx == gh / 2 * (gk * gc - gn)) & (gy == gh / 2 * (gk * gn + gc)), "lemma: ghost second axis");
    float gd = vc_ghost(gpx * gvx + gpy * gvy), gr = vc_ghost(gpx * gvy - gpy * gvx);
    vc_assert((gh * gl == 2 * gr) & (gk * gr == gd), "lemma: products");
    vc_assert(gx * gl == gr * (gk * gc - gn), "lemma: scaled x");
    vc_assert(gy * gl == gr * (gk * gn + gc), "lemma: scaled y");
    vc_assert(gx * gl == gd * gc - gr * gn, "lemma: no shear x");
    vc_assert(gy * gl == gd * gn + gr * gc, "lemma: no shear y");
    float ex = vc_ghost(gx * gl), ey = vc_ghost(gy * gl);
    vc_assert((ex == gd * gc - gr * gn) & (ey == gd * gn + gr * gc), "lemma: products named");
    vc_assert(ex * gl == gd * gpx - gr * gpy, "lemma: no direction x");
    vc_assert(ey * gl == gd * gpy + gr * gpx, "lemma: no direction y");
    vc_assert(gd * gpx - gr * gpy == gvx * (gpx * gpx + gpy * gpy), "lemma: identity x");
    vc_assert(gd * gpy + gr * gpx == gvy * (gpx * gpx + gpy * gpy), "lemma: identity y");
    float gq = vc_ghost(gpx * gpx + gpy * gpy);
    vc_assert((gl * gl == gq) & (gq != 0), "lemma: squared length");
    vc_assert((ex * gl == gvx * gq) & (ey * gl == gvy * gq), "lemma: cancelling");
    vc_assert((ex == gx * gl) & (ey == gy * gl), "lemma: unfold");
    vc_assert((gx * gq == gvx * gq) & (gy * gq == gvy * gq), "lemma: multiplied [by cancelling; unfold; squared length]");
    float rx = vc_ghost(gx), ry = vc_ghost(gy), sx = vc_ghost(gvx), sy = vc_ghost(gvy), sq = vc_ghost(gq);
    vc_assert((sq != 0) & (rx * sq == sx * sq) & (ry * sq == sy * sq), "lemma: renamed");
    vc_assert((rx == sx) & (ry == sy), "lemma: cancelled [by renamed]");
    vc_assert((gx == gvx) & (gy == gvy), "lemma: result");
  }
  vc_assert(vc_near(nv.x, vx, S) & vc_near(nv.y, vy, S), "Apply(quad) transforms the second semi-axis");
}
VC_PROOF(real, quad_proper) { run(false, false); }
VC_PROOF(real, quad_flat) { run(false, true); }
VC_PROOF(real, quad_narrow) { run(true, false); }
VC_PROOF(real, quad_point) { run(true, true); }
