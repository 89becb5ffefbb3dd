// Bitmap validation over all dimensions, formats and data sizes.
// VC-SOURCES: ink/rendering/bitmap.cc ink/color/color.cc ink/color/color_space.cc
// VC-BOUND: VectorBitmap copies are proved for data of 0, 1, 4, 9 and 16 bytes; validation is proved for all sizes
#include "vc.h"
#include "ink/rendering/bitmap.h"
using namespace ink;
using PF = Bitmap::PixelFormat;
// any client bitmap: the data span is whatever the subclass reports
struct AnyBitmap : Bitmap {
  AnyBitmap(int w, int h, PF f, size_t n) : Bitmap(w, h, f, Color::Format::kLinear, ColorSpace::kSrgb), n(n) {}
  absl::Span<const uint8_t> GetPixelData() const override { return absl::Span<const uint8_t>(&byte, n); }
  size_t n; uint8_t byte = 0;
};
// natively: dimensions whose product can be hit
static int dim(const char* n) { int v = vc_i32(n); return v; }
VC_PROOF(fp, validate) {
  int w = dim("w"), h = dim("h"), f = vc_i32("format");
  uint64_t n = vc_bool("exact") ? static_cast<uint64_t>(static_cast<int64_t>(w)) * static_cast<uint64_t>(static_cast<int64_t>(h)) * 4 : vc_u64("n");
  AnyBitmap b(w, h, static_cast<PF>(f), n);
  bool ok = rendering_internal::ValidateBitmap(b).ok();
  bool dims = (w > 0) & (h > 0), fmt = f == static_cast<int>(PF::kRgba8888);
  // w*h < 2^62, so four times it still fits 64 bits: no overflow can make a wrong size look right
  uint64_t area = static_cast<uint64_t>(w) * static_cast<uint64_t>(h);
  vc_assert(vc_implies(ok, dims & fmt), "valid only for positive dimensions and a known format");
  vc_assert(vc_implies(vc_and(dims, fmt), ok == (n == area * 4)), "valid exactly when the data holds width x height pixels");
}
VC_PROOF(fp, accessors) {
  int w = dim("w"), h = dim("h"), f = vc_i32("format");
  AnyBitmap b(w, h, static_cast<PF>(f), 0);
  vc_assert((b.width() == w) & (b.height() == h) & (static_cast<int>(b.pixel_format()) == f) & (b.color_format() == Color::Format::kLinear) & (b.color_space() == ColorSpace::kSrgb), "accessors return the constructor arguments");
  vc_assert(PixelFormatBytesPerPixel(PF::kRgba8888) == 4, "four bytes per RGBA pixel");
}
// an owning bitmap keeps and exposes its data
static void owning(int n) {
  std::vector<uint8_t> v, c;
  for (int i = 0; i < n; ++i) { uint8_t x = vc_u8("px"); v.push_back(x); c.push_back(x); }
  int w = dim("w"), h = dim("h");
  Color::Format cf = static_cast<Color::Format>(vc_choose("cf", 0, 2)); ColorSpace cs = static_cast<ColorSpace>(vc_choose("cs", 0, 1));
  VectorBitmap b(w, h, PF::kRgba8888, cf, cs, v);
  absl::Span<const uint8_t> s = b.GetPixelData();
  bool same = s.size() == static_cast<size_t>(n);
  vc_assert(same, "pixel data keeps its size");
  for (int i = 0; i < n; ++i) same &= s[i] == c[i];
  vc_assert(same, "pixel data keeps its bytes");
  vc_assert((b.width() == w) & (b.height() == h) & (b.color_format() == cf) & (b.color_space() == cs), "owning bitmap keeps its format");
  bool ok = rendering_internal::ValidateBitmap(b).ok();
  vc_assert(ok == ((w > 0) & (h > 0) & (static_cast<int64_t>(w) * h * 4 == n)), "owning bitmap is valid exactly when its size matches");
}
VC_PROOF(fp, vector_bitmap_0) { owning(0); }
VC_PROOF(fp, vector_bitmap_1) { owning(1); }
VC_PROOF(fp, vector_bitmap_4) { owning(4); }
VC_PROOF(fp, vector_bitmap_9) { owning(9); }
VC_PROOF(fp, vector_bitmap_16) { owning(16); }
