// Shared builders for geometry contracts.
#ifndef VC_GEO_H_
#define VC_GEO_H_
#include "vc.h"
#include "ink/geometry/rect.h"
#include "ink/geometry/segment.h"
#include "ink/geometry/triangle.h"
#include "ink/geometry/quad.h"
using namespace ink;
inline float num(const char* n) { float f = vc_float(n); vc_assume(!vc_isnan(f)); return f; }
inline float fin(const char* n) { float f = vc_float(n); vc_assume(vc_finite(f)); return f; }
inline Point finpt() { float x = fin("px"); float y = fin("py"); return {x, y}; }
inline Point numpt() { float x = num("px"); float y = num("py"); return {x, y}; }
inline Rect finrect() { Point a = finpt(); Point b = finpt(); vc_assume((a.x <= b.x) & (a.y <= b.y)); return Rect::FromTwoPoints(a, b); }
inline Rect numrect() { Point a = numpt(); Point b = numpt(); vc_assume((a.x <= b.x) & (a.y <= b.y)); return Rect::FromTwoPoints(a, b); }
inline bool ordered(const Rect& r) { return (r.XMin() <= r.XMax()) & (r.YMin() <= r.YMax()); }
inline float fmn(float a, float b) { return a < b ? a : b; }
inline float fmx(float a, float b) { return a < b ? b : a; }
inline bool bounds(const Rect& r, float x0, float y0, float x1, float y1) { return (r.XMin() == x0) & (r.YMin() == y0) & (r.XMax() == x1) & (r.YMax() == y1); }
inline bool eqpt(Point p, float x, float y) { return (p.x == x) & (p.y == y); }
#endif
