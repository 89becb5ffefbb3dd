// Rect: ordering invariant, closed containment, exact joins, setters.
// VC-SOURCES: ink/geometry/rect.cc ink/geometry/segment.cc ink/geometry/vec.cc
#include "geo.h"

VC_PROOF(fp, two_points) {
  Point a = numpt(), b = numpt();
  Rect r = Rect::FromTwoPoints(a, b);
  vc_assert(bounds(r, fmn(a.x, b.x), fmn(a.y, b.y), fmx(a.x, b.x), fmx(a.y, b.y)), "FromTwoPoints is the smallest rectangle");
  vc_assert(ordered(r), "FromTwoPoints is ordered");
}
VC_PROOF(fp, default_rect) { vc_assert(bounds(Rect(), 0, 0, 0, 0), "default rectangle is the origin"); }
VC_PROOF(fp, center_dims_ordered) {
  Point c = finpt(); float w = num("w"), h = num("h");
  vc_assume((w >= 0) & (h >= 0));
  Rect r = Rect::FromCenterAndDimensions(c, w, h);
  vc_assert(ordered(r), "FromCenterAndDimensions is ordered");
  vc_assert((r.XMin() <= c.x) & (c.x <= r.XMax()) & (r.YMin() <= c.y) & (c.y <= r.YMax()), "FromCenterAndDimensions contains its centre");
}
VC_PROOF(real, center_dims) {
  Point c = finpt(); float w = fin("w"), h = fin("h");
  vc_assume((w >= 0) & (h >= 0));
  Rect r = Rect::FromCenterAndDimensions(c, w, h);
  float s = std::fabs(c.x) + std::fabs(c.y) + w + h;
  vc_assert(vc_near(r.Width(), w, s) & vc_near(r.Height(), h, s), "FromCenterAndDimensions dimensions");
  vc_assert(vc_near(r.Center().x, c.x, s) & vc_near(r.Center().y, c.y, s), "FromCenterAndDimensions centre");
}
VC_PROOF(fp, contains) {
  Rect r = numrect(), q = numrect(); Point p = numpt();
  vc_assert(r.Contains(p) == ((r.XMin() <= p.x) & (p.x <= r.XMax()) & (r.YMin() <= p.y) & (p.y <= r.YMax())), "Contains(point) is the closed interval test");
  vc_assert(r.Contains(q) == ((r.XMin() <= q.XMin()) & (q.XMax() <= r.XMax()) & (r.YMin() <= q.YMin()) & (q.YMax() <= r.YMax())), "Contains(rect) is the closed interval test");
}
VC_PROOF(fp, join) {
  Rect r = numrect(), q = numrect(); Point p = numpt();
  Rect a = r; a.Join(p);
  vc_assert(bounds(a, fmn(r.XMin(), p.x), fmn(r.YMin(), p.y), fmx(r.XMax(), p.x), fmx(r.YMax(), p.y)), "Join(point) is exact");
  Rect b = r; b.Join(q);
  vc_assert(bounds(b, fmn(r.XMin(), q.XMin()), fmn(r.YMin(), q.YMin()), fmx(r.XMax(), q.XMax()), fmx(r.YMax(), q.YMax())), "Join(rect) is exact");
  vc_assert(b.Contains(r) & b.Contains(q) & a.Contains(p) & a.Contains(r), "Join contains both operands");
}
VC_PROOF(fp, corners_edges) {
  Rect r = numrect();
  auto c = r.Corners();
  float x0 = r.XMin(), y0 = r.YMin(), x1 = r.XMax(), y1 = r.YMax();
  vc_assert(eqpt(c[0], x0, y0) & eqpt(c[1], x1, y0) & eqpt(c[2], x1, y1) & eqpt(c[3], x0, y1), "Corners in counter-clockwise order");
  int i = vc_choose("i", 0, 3);
  Segment e = r.GetEdge(i);
  vc_assert((e.start == c[i]) & (e.end == c[(i + 1) % 4]), "GetEdge joins consecutive corners");
}
VC_PROOF(fp, semi_finite) {
  Rect r = finrect();
  vc_assert(vc_finite(r.SemiWidth()) & vc_finite(r.SemiHeight()), "semi dimensions of a finite rectangle are finite");
  vc_assert((r.SemiWidth() >= 0) & (r.SemiHeight() >= 0), "semi dimensions are non-negative");
  vc_assert((r.Width() >= 0) & (r.Height() >= 0), "dimensions are non-negative");
  Point c = r.Center();
  vc_assert(vc_finite(c.x) & vc_finite(c.y), "centre of a finite rectangle is finite");
}
VC_PROOF(fp, center_infinite) {
  Rect r = numrect();
  Point c = r.Center();
  vc_assert(!vc_isnan(c.x) & !vc_isnan(c.y), "centre is never NaN");
  vc_assert(vc_implies((r.XMin() == -VC_INF) & (r.XMax() == VC_INF), c.x == 0), "centre of an infinite rectangle is 0 (x)");
  vc_assert(vc_implies((r.YMin() == -VC_INF) & (r.YMax() == VC_INF), c.y == 0), "centre of an infinite rectangle is 0 (y)");
}
VC_PROOF(real, measures) {
  Rect r = finrect();
  float w = r.XMax() - r.XMin(), h = r.YMax() - r.YMin();
  float s = std::fabs(r.XMin()) + std::fabs(r.XMax()) + std::fabs(r.YMin()) + std::fabs(r.YMax());
  vc_assert(vc_near(r.Width(), w, s) & vc_near(r.Height(), h, s), "Width, Height");
  vc_assert(vc_near(r.SemiWidth() * 2, w, s) & vc_near(r.SemiHeight() * 2, h, s), "SemiWidth, SemiHeight");
  vc_assert(vc_near(r.Center().x * 2, r.XMin() + r.XMax(), s) & vc_near(r.Center().y * 2, r.YMin() + r.YMax(), s), "Center");
  vc_assert(vc_near(r.Area(), w * h, s * s) & (r.Area() >= 0), "Area");
  if (vc_split(h != 0)) vc_assert(vc_near(r.AspectRatio() * h, w, s), "AspectRatio");
}
VC_PROOF(real, setters) {
  Rect r = finrect();
  float s = std::fabs(r.XMin()) + std::fabs(r.XMax()) + std::fabs(r.YMin()) + std::fabs(r.YMax());
  float w = fin("w"), h = fin("h");
  vc_assume((w >= 0) & (h >= 0));
  Point c = finpt();
  float k = s + w + h + std::fabs(c.x) + std::fabs(c.y);
  Rect a = r; a.SetWidth(w);
  vc_assert(vc_near(a.Width(), w, k) & vc_near(a.Center().x, r.Center().x, k) & (a.YMin() == r.YMin()) & (a.YMax() == r.YMax()), "SetWidth keeps centre and height");
  Rect b = r; b.SetHeight(h);
  vc_assert(vc_near(b.Height(), h, k) & vc_near(b.Center().y, r.Center().y, k) & (b.XMin() == r.XMin()) & (b.XMax() == r.XMax()), "SetHeight keeps centre and width");
  Rect d = r; d.SetCenter(c);
  vc_assert(vc_near(d.Center().x, c.x, k) & vc_near(d.Center().y, c.y, k) & vc_near(d.Width(), r.Width(), k) & vc_near(d.Height(), r.Height(), k), "SetCenter keeps dimensions");
  Rect e = r; e.Translate({c.x, c.y});
  vc_assert(vc_near(e.XMin(), r.XMin() + c.x, k) & vc_near(e.XMax(), r.XMax() + c.x, k) & vc_near(e.YMin(), r.YMin() + c.y, k) & vc_near(e.YMax(), r.YMax() + c.y, k), "Translate moves all bounds");
}
VC_PROOF(fp, setters_ordered) {
  Rect r = finrect();
  float w = fin("w"), h = fin("h");
  vc_assume((w >= 0) & (h >= 0));
  Point c = finpt();
  Rect a = r; a.SetWidth(w); vc_assert((a.XMin() <= a.XMax()) | vc_isnan(a.XMin()) | vc_isnan(a.XMax()), "SetWidth stays ordered");
  Rect b = r; b.SetHeight(h); vc_assert((b.YMin() <= b.YMax()) | vc_isnan(b.YMin()) | vc_isnan(b.YMax()), "SetHeight stays ordered");
  Rect d = r; d.SetCenter(c); vc_assert(ordered(d), "SetCenter stays ordered");
  Rect e = r; e.Translate({c.x, c.y}); vc_assert(ordered(e), "Translate stays ordered");
}
VC_PROOF(fp, offset_ordered) {
  Rect r = finrect(); float o = fin("o"), q = fin("q");
  Rect a = r; a.Offset(o, q);
  vc_assert(ordered(a), "Offset stays ordered");
  Rect b = r; b.Offset(o);
  vc_assert(ordered(b), "Offset (one argument) stays ordered");
}
VC_PROOF(real, offset) {
  Rect r = finrect(); float o = fin("o"), q = fin("q");
  float k = std::fabs(r.XMin()) + std::fabs(r.XMax()) + std::fabs(r.YMin()) + std::fabs(r.YMax()) + std::fabs(o) + std::fabs(q);
  Rect a = r; a.Offset(o, q);
  float w = r.Width() + 2 * o, h = r.Height() + 2 * q;
  if (vc_mode() == 3) vc_assume((std::fabs(w) > k * 1e-4f) & (std::fabs(h) > k * 1e-4f));
  vc_assert(vc_near(a.Width(), w < 0 ? 0 : w, k) & vc_near(a.Height(), h < 0 ? 0 : h, k), "Offset grows by twice the offset, never below zero");
  vc_assert(vc_near(a.XMin() + a.XMax(), r.XMin() + r.XMax(), k) & vc_near(a.YMin() + a.YMax(), r.YMin() + r.YMax(), k), "Offset keeps the centre");
  Rect b = r, c = r; b.Offset(o); c.Offset(o, o);
  vc_assert(bounds(b, c.XMin(), c.YMin(), c.XMax(), c.YMax()), "Offset with one argument uses it for both dimensions");
}
VC_PROOF(real, scale) {
  Rect r = finrect(); float o = fin("o"), q = fin("q");
  vc_assume((o >= 0) & (q >= 0));
  float k = (std::fabs(r.XMin()) + std::fabs(r.XMax()) + std::fabs(r.YMin()) + std::fabs(r.YMax())) * (1 + o + q);
  Rect a = r; a.Scale(o, q);
  vc_assert(vc_near(a.Width(), o * r.Width(), k) & vc_near(a.Height(), q * r.Height(), k), "Scale multiplies the dimensions");
  vc_assert(vc_near(a.XMin() + a.XMax(), r.XMin() + r.XMax(), k) & vc_near(a.YMin() + a.YMax(), r.YMin() + r.YMax(), k), "Scale keeps the centre");
  Rect b = r, c = r; b.Scale(o); c.Scale(o, o);
  vc_assert(bounds(b, c.XMin(), c.YMin(), c.XMax(), c.YMax()), "Scale with one argument uses it for both dimensions");
}
VC_PROOF(fp, resize) {
  Rect r = numrect(); float v = num("v");
  float x0 = r.XMin(), y0 = r.YMin(), x1 = r.XMax(), y1 = r.YMax();
  Rect a = r; a.ResizeSettingXMinTo(v); vc_assert(bounds(a, v, y0, fmx(x1, v), y1), "ResizeSettingXMinTo");
  Rect b = r; b.ResizeSettingYMinTo(v); vc_assert(bounds(b, x0, v, x1, fmx(y1, v)), "ResizeSettingYMinTo");
  Rect c = r; c.ResizeSettingXMaxTo(v); vc_assert(bounds(c, fmn(x0, v), y0, v, y1), "ResizeSettingXMaxTo");
  Rect d = r; d.ResizeSettingYMaxTo(v); vc_assert(bounds(d, x0, fmn(y0, v), x1, v), "ResizeSettingYMaxTo");
}
VC_PROOF(real, translate_setting) {
  Rect r = finrect(); float v = fin("v");
  float k = std::fabs(r.XMin()) + std::fabs(r.XMax()) + std::fabs(r.YMin()) + std::fabs(r.YMax()) + std::fabs(v);
  float w = r.Width(), h = r.Height(), x0 = r.XMin(), y0 = r.YMin();
  Rect a = r; a.TranslateSettingXMinTo(v);
  vc_assert(vc_near(a.XMin(), v, k) & vc_near(a.Width(), w, k) & (a.YMin() == y0) & vc_near(a.Height(), h, k), "TranslateSettingXMinTo");
  Rect b = r; b.TranslateSettingYMinTo(v);
  vc_assert(vc_near(b.YMin(), v, k) & vc_near(b.Width(), w, k) & (b.XMin() == x0) & vc_near(b.Height(), h, k), "TranslateSettingYMinTo");
  Rect c = r; c.TranslateSettingXMaxTo(v);
  vc_assert(vc_near(c.XMax(), v, k) & vc_near(c.Width(), w, k) & (c.YMin() == y0) & vc_near(c.Height(), h, k), "TranslateSettingXMaxTo");
  Rect d = r; d.TranslateSettingYMaxTo(v);
  vc_assert(vc_near(d.YMax(), v, k) & vc_near(d.Width(), w, k) & (d.XMin() == x0) & vc_near(d.Height(), h, k), "TranslateSettingYMaxTo");
}
static void same_center(const Rect& a, const Rect& r, float k) {
  vc_assert(vc_near(a.Center().x, r.Center().x, k) & vc_near(a.Center().y, r.Center().y, k), "aspect-ratio rectangle keeps the centre");
}
VC_PROOF(real, aspect_containing) {
  Rect r = finrect(); float q = fin("q");
  vc_assume((q > 0) & (r.YMax() > r.YMin()) & (r.XMax() > r.XMin()));
  if (vc_mode() == 3) vc_assume((q > 0.01f) & (q < 100) & (r.Width() > 0.01f) & (r.Height() > 0.01f) & (r.Width() < 100) & (r.Height() < 100) & (std::fabs(r.XMin()) < 100) & (std::fabs(r.YMin()) < 100));
  float k = (std::fabs(r.XMin()) + std::fabs(r.XMax()) + std::fabs(r.YMin()) + std::fabs(r.YMax())) * (2 + q + 1 / q);
  Rect a = r.ContainingRectWithAspectRatio(q);
  vc_assert(vc_near(a.Width(), q * a.Height(), k * (1 + q)), "containing rectangle has the requested ratio");
  same_center(a, r, k);
  vc_assert((vc_near(a.Width(), r.Width(), k) & (a.Height() >= r.Height() - (vc_mode() == 3 ? k * 1e-5f : 0))) | (vc_near(a.Height(), r.Height(), k) & (a.Width() >= r.Width() - (vc_mode() == 3 ? k * 1e-5f : 0))), "one dimension kept, the other grows");
}
VC_PROOF(real, aspect_interior) {
  Rect r = finrect(); float q = fin("q");
  vc_assume((q >= 0) & (r.YMax() > r.YMin()) & (r.XMax() > r.XMin()));
  if (vc_mode() == 3) vc_assume((q < 100) & ((q == 0) | (q > 0.01f)) & (r.Width() > 0.01f) & (r.Height() > 0.01f) & (r.Width() < 100) & (r.Height() < 100) & (std::fabs(r.XMin()) < 100) & (std::fabs(r.YMin()) < 100));
  float k = (std::fabs(r.XMin()) + std::fabs(r.XMax()) + std::fabs(r.YMin()) + std::fabs(r.YMax())) * (2 + q);
  Rect a = r.InteriorRectWithAspectRatio(q);
  vc_assert(vc_near(a.Width(), q * a.Height(), k * (1 + q)), "interior rectangle has the requested ratio");
  same_center(a, r, k);
  vc_assert((vc_near(a.Width(), r.Width(), k) & (a.Height() <= r.Height() + (vc_mode() == 3 ? k * 1e-5f : 0))) | (vc_near(a.Height(), r.Height(), k) & (a.Width() <= r.Width() + (vc_mode() == 3 ? k * 1e-5f : 0))), "one dimension kept, the other shrinks");
}
