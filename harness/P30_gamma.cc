// Color: 8-bit gamma-encoded channels and the named colours, with the real transfer functions.
// VC-SOURCES: ink/color/color.cc ink/color/color_space.cc
// VC-OPT: max_iter=300
#include "vc.h"
#include "ink/color/color.h"
using namespace ink;
using F = Color::Format;
VC_PROOF(fp, uint8_gamma) {
  // every 8-bit value, one by one; the channels are treated independently (P30 from_gamma, as_float)
  for (int i = 0; i < 256; ++i) {
    Color c = Color::FromUint8(i, 255 - i, i ^ 0x55, i, F::kGammaEncoded);
    Color::RgbaUint8 o = c.AsUint8(F::kGammaEncoded);
    vc_assert((o.r == i) & (o.g == 255 - i) & (o.b == (i ^ 0x55)) & (o.a == i), "gamma-encoded 8-bit channels survive a round trip");
  }
}
VC_PROOF(fp, named) {
  auto is = [](Color c, uint32_t v) { return (c.AsPackedUint32RGBA(F::kGammaEncoded) == v) & (c.GetColorSpace() == ColorSpace::kSrgb); };
  vc_assert(is(Color::Black(), 0x000000ff) & is(Color::White(), 0xffffffff) & is(Color::Transparent(), 0), "black, white, transparent");
  vc_assert(is(Color::Red(), 0xff0000ff) & is(Color::Green(), 0x00ff00ff) & is(Color::Blue(), 0x0000ffff), "red, green, blue");
  vc_assert(is(Color::Cyan(), 0x00ffffff) & is(Color::Magenta(), 0xff00ffff) & is(Color::Yellow(), 0xffff00ff), "cyan, magenta, yellow");
  vc_assert((Color() == Color::Black()), "the default is black");
}
