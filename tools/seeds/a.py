HD = '#include <cmath>\n#include <cstdio>\n#include <limits>\n#define CHECKV(c) do { if (!(c)) { std::puts("FAILED: " #c); return 1; } } while (0)\n'
GEO = ['ink/geometry/' + x + '.cc' for x in ('quad', 'rect', 'segment', 'vec', 'angle', 'triangle', 'affine_transform')]
ABSL = '-labsl_str_format_internal -labsl_strings -labsl_strings_internal -labsl_time -labsl_time_zone -labsl_int128 -labsl_throw_delegate -labsl_raw_logging_internal -labsl_base -labsl_spinlock_wait'
seed('S01', 'P01', [('ink/types/duration.cc', 'if (b == Duration32::Zero()) {\n    return (a >= Duration32::Zero())', 'if (b == Duration32::Zero() && !a.IsFinite()) {\n    return (a >= Duration32::Zero())')],
     HD + '#include "ink/types/duration.h"\nusing ink::Duration32;\nint main() { float r = Duration32::Zero() / Duration32::Zero(); CHECKV(r == r); CHECKV(std::isinf(r)); CHECKV(Duration32::Seconds(4) / Duration32::Seconds(2) == 2); return 0; }\n',
     ['ink/types/duration.cc'], 'the ratio of two zero durations', 'zero divided by zero yields NaN instead of an infinity', shims=False, libs=ABSL)
seed('S02', 'P10', [('ink/geometry/angle.cc', ': radians <= static_cast<float>(-numbers::kPi)', ': radians < static_cast<float>(-numbers::kPi)')],
     HD + '#include "ink/geometry/angle.h"\nint main() { CHECKV((-ink::kHalfTurn).NormalizedAboutZero() > -ink::kHalfTurn); CHECKV(ink::Angle::Radians(1).NormalizedAboutZero() == ink::Angle::Radians(1)); return 0; }\n',
     ['ink/geometry/angle.cc'], 'an angle congruent to exactly -pi in floats', 'NormalizedAboutZero returns -pi, outside (-pi, pi]', shims=False, libs=ABSL)
seed('S03', 'P51', [('ink/jni/internal/jni_string_util.cc', 'if (j_string_ != nullptr) {\n    env_->ReleaseStringUTFChars(j_string_, string_view_.data());', 'if (j_string_ != nullptr) {\n    if (!string_view_.empty()) {\n      env_->ReleaseStringUTFChars(j_string_, string_view_.data());\n    }')],
     HD + '''#include <string>
#include "ink/jni/internal/jni_string_util.h"
static int refs = 0, bufs = 0; static const char* text = "";
static jobject JNICALL NG(JNIEnv*, jobject o) { ++refs; return o; }
static void JNICALL DG(JNIEnv*, jobject) { --refs; }
static const char* JNICALL GC(JNIEnv*, jstring, jboolean*) { ++bufs; return text; }
static jsize JNICALL GL(JNIEnv*, jstring) { return std::char_traits<char>::length(text); }
static void JNICALL RC(JNIEnv*, jstring, const char*) { --bufs; }
int main() {
  JNINativeInterface_ t = {}; t.NewGlobalRef = NG; t.DeleteGlobalRef = DG; t.GetStringUTFChars = GC; t.GetStringUTFLength = GL; t.ReleaseStringUTFChars = RC;
  JNIEnv_ e; e.functions = &t; _jstring s;
  CHECKV(ink::jni::JStringToStdString(&e, &s) == ""); CHECKV(refs == 0 && bufs == 0);
  text = "ink"; CHECKV(ink::jni::JStringToStdString(&e, &s) == "ink"); CHECKV(refs == 0 && bufs == 0);
  return 0;
}
''', ['ink/jni/internal/jni_string_util.cc'], 'an empty (but not null) Java string', 'the borrowed character buffer of an empty string is never released', shims=False, libs=ABSL,
     flags='-I/usr/lib/jvm/java-17-openjdk-amd64/include -I/usr/lib/jvm/java-17-openjdk-amd64/include/linux')
seed('S05', 'P30', [('ink/color/color.cc', '''    if (rgba.a == 0.0f) {
      // This branch needs special handling because infinite channel values are
      // permitted, and zero times infinity is NaN. We want it to be zero.
      rgba.r = 0.0f;''', '''    if (rgba.a == 0.0f && !std::isinf(rgba.r)) {
      // This branch needs special handling because infinite channel values are
      // permitted, and zero times infinity is NaN. We want it to be zero.
      rgba.r = 0.0f;''')],
     HD + '#include "ink/color/color.h"\nusing ink::Color;\nint main() { auto c = Color::FromFloat(std::numeric_limits<float>::infinity(), 0, 0, 0, Color::Format::kLinear); CHECKV(c.AsFloat(Color::Format::kPremultipliedAlpha).r == 0); CHECKV(Color::FromFloat(1, 1, 1, 0, Color::Format::kLinear).AsFloat(Color::Format::kPremultipliedAlpha).g == 0); return 0; }\n',
     ['ink/color/color.cc', 'ink/color/color_space.cc'], 'a fully transparent colour with an infinite red channel read back premultiplied', 'the channel is NaN', libs=ABSL)
seed('S06', 'P31', [('ink/color/color_space.cc', '''            high_precision_col_major[kRowMajorToColumnMajorIndexMap[i]]);
      }
      break;
    }
  }
  return output;
}

std::array<float, 9> GetXyzD65ToColorSpaceMatrix''', '''            high_precision_col_major[i]);
      }
      break;
    }
  }
  return output;
}

std::array<float, 9> GetXyzD65ToColorSpaceMatrix''')],
     HD + '#include "ink/color/color_space.h"\nusing namespace ink;\nint main() { auto a = GetColorSpaceToXyzD65Matrix(ColorSpace::kSrgb, MatrixLayout::kColumnMajor), b = GetColorSpaceToXyzD65Matrix(ColorSpace::kSrgb, MatrixLayout::kRowMajor); for (int i = 0; i < 9; ++i) CHECKV(a[i] == b[i % 3 * 3 + i / 3]); return 0; }\n',
     ['ink/color/color_space.cc'], 'the row-major layout', 'the row-major matrix is not the transpose of the column-major one', libs=ABSL)
seed('S07', 'P05', [('ink/types/iterator_range.h', 'return std::distance(begin_iterator_, end_iterator_);', 'return static_cast<unsigned>(\n        std::distance(begin_iterator_, end_iterator_));')],
     HD + '''#include "ink/types/iterator_range.h"
struct It { using iterator_category = std::random_access_iterator_tag; using value_type = long; using difference_type = long; using pointer = long*; using reference = long; long p = 0;
  friend bool operator==(It a, It b) { return a.p == b.p; } friend bool operator!=(It a, It b) { return a.p != b.p; } friend long operator-(It a, It b) { return a.p - b.p; } };
int main() { CHECKV(ink::make_range(It{1}, It{8}).size() == 7); CHECKV(ink::make_range(It{0}, It{5000000000}).size() == 5000000000u); return 0; }
''', [], 'a range of more than 2^32 elements', 'size() is truncated to 32 bits', shims=False)
seed('S08', 'P03', [('ink/types/physical_distance.h', 'inline PhysicalDistance& operator/=(PhysicalDistance& d, float divisor) {\n  return d = d / divisor;', 'inline PhysicalDistance& operator/=(PhysicalDistance& d, float divisor) {\n  return d *= (1 / divisor);')],
     HD + '#include "ink/types/physical_distance.h"\nusing ink::PhysicalDistance;\nint main() { auto d = PhysicalDistance::Centimeters(1e-40f); d /= 1e-40f; CHECKV(d == PhysicalDistance::Centimeters(1)); d = PhysicalDistance::Meters(3); d /= 4; CHECKV(d == PhysicalDistance::Centimeters(75)); return 0; }\n',
     [], 'a subnormal divisor (or an infinite one)', '/= goes through the reciprocal, which overflows', shims=False)
seed('S09', 'P14', [('ink/geometry/affine_transform.cc', 'if (d == 0 || from.SignedArea() == 0) return std::nullopt;', 'if (d == 0 && from.SignedArea() == 0) return std::nullopt;')],
     HD + '#include "ink/geometry/affine_transform.h"\nusing namespace ink;\nint main() { Triangle t{{16777216, 1}, {16777216 + 2, 3}, {16777216 + 4, 5}}, u{{0, 0}, {1, 0}, {0, 1}}; bool any = false;\n for (int i = 0; i < 4000 && !any; ++i) { float x = 1e5f + i * 37.25f, y = 3e4f + i * 11.5f; Triangle s{{x, y}, {x + 3, y + 1}, {x + 9, y + 3}}; if (s.SignedArea() == 0 && AffineTransform::Find(s, u).has_value()) any = true; }\n CHECKV(!any); CHECKV(AffineTransform::Find(u, u).has_value()); return 0; }\n',
     GEO, 'a degenerate (collinear) triangle far from the origin', 'Find returns a transform for a degenerate source triangle', libs=ABSL)
seed('S10', 'P11', [('ink/geometry/vec.cc', 'return angle == kHalfTurn || Determinant(a_unit, b_unit) >= 0.f ? angle', 'return Determinant(a_unit, b_unit) >= 0.f ? angle')],
     HD + '#include "ink/geometry/vec.h"\nusing namespace ink;\nint main() { for (int i = 0; i < 200000; ++i) { Vec a{1.f + i * 0.37f, 2.f + i * 0.113f}, b{-a.x * 3, std::nextafter(-a.y * 3, 1e9f)}; CHECKV(Vec::SignedAngleBetween(a, b) > -kHalfTurn); } return 0; }\n',
     ['ink/geometry/vec.cc', 'ink/geometry/angle.cc'], 'nearly opposite vectors whose determinant is a tiny negative number', 'SignedAngleBetween returns -pi', libs=ABSL)
