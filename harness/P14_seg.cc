// AffineTransform::Find(Segment, Segment), over the contract of Vec::SignedAngleBetween (proved in P11_signed.cc).
// VC-SOURCES: ink/geometry/affine_transform.cc ink/geometry/rect.cc ink/geometry/segment.cc ink/geometry/vec.cc ink/geometry/quad.cc ink/geometry/angle.cc ink/geometry/triangle.cc
// VC-STUB: ^ink::Vec::SignedAngleBetween\( => vcstub_SAB
// VC-ASSUME: contract of Vec::SignedAngleBetween used by P14_seg: cos and sin of the angle are dot and determinant over the magnitudes (proved in P11_signed)
#include "geo.h"
#include "ink/geometry/affine_transform.h"
// natively keep the numbers moderate: the claims are about real arithmetic
static float mod(const char* n) { float f = fin(n); if (vc_mode() == 3) vc_assume((std::fabs(f) < 100) & ((f == 0) | (std::fabs(f) > 1e-3f))); return f; }
static Point mpt() { float x = mod("px"); float y = mod("py"); return {x, y}; }
static bool at(Point p, float x, float y, float s) { return vc_near(p.x, x, s) & vc_near(p.y, y, s); }
#ifdef VC_SYMBOLIC
extern "C" __attribute__((used)) Angle vcstub_SAB(const Vec* a, const Vec* b) {
  float t = vc_float("angle");
  float LM = a->Magnitude() * b->Magnitude();
  vc_assume((std::cos(t) * LM == Vec::DotProduct(*a, *b)) & (std::sin(t) * LM == Vec::Determinant(*a, *b)));
  return Angle::Radians(t);
}
#endif
VC_PROOF(real, find_segment) {
  Segment f{mpt(), mpt()}, g{mpt(), mpt()};
  float dx = f.end.x - f.start.x, dy = f.end.y - f.start.y;
  bool z = (dx == 0) & (dy == 0), w = g.start == g.end;
  if (vc_mode() == 3) vc_assume(z | (std::fabs(dx) + std::fabs(dy) > 0.1f));
  z = vc_split(z);
  auto t = AffineTransform::Find(f, g);
  vc_assert(t.has_value() == (!z | w), "Find(segment) fails only for a point mapped to a proper segment");
  if (t.has_value()) {
    Point a = t->Apply(f.start), b = t->Apply(f.end);
    float k = vc_mode() == 3 ? 1e6f : 1;
    if (vc_mode() == 1) {
      // ghost lemmas: the matrix is (dot, det) / |from|^2
      float L = f.Length();
      float dot = Vec::DotProduct(f.Vector(), g.Vector()), det = Vec::Determinant(f.Vector(), g.Vector());
      vc_assert(vc_implies(!z, t->A() * (L * L) == dot), "lemma: cosine coefficient");
      vc_assert(vc_implies(!z, t->D() * (L * L) == det), "lemma: sine coefficient");
      float gx = g.end.x - g.start.x, gy = g.end.y - g.start.y;
      vc_assert(L * L == dx * dx + dy * dy, "lemma: length");
      vc_assert(vc_implies(!z, (t->A() * dx - t->D() * dy) * (L * L) == gx * (L * L)), "lemma: end x");
      vc_assert(vc_implies(!z, (t->D() * dx + t->A() * dy) * (L * L) == gy * (L * L)), "lemma: end y");
      vc_assert(vc_implies(!z, t->A() * dx - t->D() * dy == gx), "lemma: end x cancelled");
      vc_assert(vc_implies(!z, t->D() * dx + t->A() * dy == gy), "lemma: end y cancelled");
      vc_assert(b.x - a.x == t->A() * dx - t->D() * dy, "lemma: difference x");
      vc_assert(b.y - a.y == t->D() * dx + t->A() * dy, "lemma: difference y");
    }
    vc_assert(vc_near(a.x, g.start.x, k), "lemma: Find(segment) maps the start (x)");
    vc_assert(vc_near(a.y, g.start.y, k), "lemma: Find(segment) maps the start (y)");
    vc_assert(vc_near(b.x, g.end.x, k), "Find(segment) maps the end (x)");
    vc_assert(vc_near(b.y, g.end.y, k), "Find(segment) maps the end (y)");
    vc_assert(vc_near(t->A(), t->E(), k) & vc_near(t->B(), -t->D(), k), "Find(segment) is a similarity without reflection");
  }
}
