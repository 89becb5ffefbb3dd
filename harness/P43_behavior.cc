// Brush behaviors: each node is accepted exactly when its fields are in range, a list exactly when it is a well-formed stack program.
// VC-SOURCES: ink/brush/brush_family.cc ink/brush/brush_coat.cc ink/brush/brush_tip.cc ink/brush/brush_paint.cc ink/brush/brush_behavior.cc ink/brush/easing_function.cc ink/color/color.cc ink/color/color_space.cc ink/geometry/angle.cc ink/geometry/vec.cc ink/types/duration.cc ink/types/uri.cc
// VC-OPT: max_iter=64 nomerge=1 max_states=4000
// VC-BOUND: every list of up to 3 nodes of all kinds and of up to 6 nodes of one kind per arity; the fields of each node are unbounded
#include "vc.h"
#include <iterator>
#include "ink/brush/brush_behavior.h"
using namespace ink;
using B = BrushBehavior;
using brush_internal::ValidateBrushBehavior;
using brush_internal::ValidateBrushBehaviorNode;
static bool is(int v, int count) { return (v >= 0) & (v < count); }
static bool range(const std::array<float, 2>& r) { return vc_finite(r[0]) & vc_finite(r[1]) & (r[0] != r[1]); }
static std::array<float, 2> range() { return {vc_float("range0"), vc_float("range1")}; }
template <typename E> static E e(const char* n) { return static_cast<E>(static_cast<std::underlying_type_t<E>>(vc_i32(n))); }

static B::SourceNode source() { return {e<B::Source>("source"), e<B::OutOfRange>("oor"), range()}; }
VC_PROOF(fp, source) {
  B::SourceNode n = source();
  int s = static_cast<int>(n.source), o = static_cast<int>(n.source_out_of_range_behavior);
  bool since = (n.source == B::Source::kTimeSinceInputInSeconds) | (n.source == B::Source::kTimeSinceInputInMillis);
  int last = static_cast<int>(B::Source::kInputAccelerationLateralInCentimetersPerSecondSquared);
  bool legal = is(s, last + 1) & is(o, 3) & range(n.source_value_range) & !(since & (n.source_out_of_range_behavior != B::OutOfRange::kClamp));
  vc_assert(ValidateBrushBehaviorNode(n).ok() == legal,
            "a source node is accepted exactly for known enumerators, a finite non-empty range, and a clamp for time since input");
}
VC_PROOF(fp, constant) {
  B::ConstantNode n{vc_float("value")};
  vc_assert(ValidateBrushBehaviorNode(n).ok() == vc_finite(n.value), "a constant node is accepted exactly for a finite value");
}
VC_PROOF(fp, fallback) {
  B::FallbackFilterNode n{e<B::OptionalInputProperty>("property")};
  vc_assert(ValidateBrushBehaviorNode(n).ok() == is(n.is_fallback_for, 4), "a fallback node is accepted exactly for a known property");
}
VC_PROOF(fp, tool_types) {
  B::EnabledToolTypes t{vc_bool("unknown"), vc_bool("mouse"), vc_bool("touch"), vc_bool("stylus")};
  bool any = t.unknown | t.mouse | t.touch | t.stylus, all = t.unknown & t.mouse & t.touch & t.stylus;
  vc_assert(ValidateBrushBehaviorNode(B::ToolTypeFilterNode{t}).ok() == any, "a tool filter is accepted exactly when it enables a tool");
  vc_assert(t.HasAnyTypes() == any && t.HasAllTypes() == all, "the tool type queries are the disjunction and conjunction of the flags");
  vc_assert(B::kAllToolTypes.HasAllTypes(), "the set of all tool types is complete");
}
VC_PROOF(fp, damping) {
  B::DampingNode n{e<B::DampingSource>("source"), vc_float("gap")};
  bool legal = is(static_cast<int>(n.damping_source), 3) & vc_finite(n.damping_gap) & (n.damping_gap >= 0);
  vc_assert(ValidateBrushBehaviorNode(n).ok() == legal, "a damping node is accepted exactly for a known source and a finite non-negative gap");
}
VC_PROOF(fp, response) {
  EasingFunction::CubicBezier c{vc_float("x1"), 0.f, 0.5f, vc_float("y2")};
  bool legal = (c.x1 >= 0) & (c.x1 <= 1) & vc_finite(c.y2);
  vc_assert(ValidateBrushBehaviorNode(B::ResponseNode{{c}}).ok() == legal, "a response node is accepted exactly when its curve is");
}
VC_PROOF(fp, binary) {
  B::BinaryOpNode n{e<B::BinaryOp>("op")};
  vc_assert(ValidateBrushBehaviorNode(n).ok() == is(static_cast<int>(n.operation), 2), "a binary node is accepted exactly for a known operation");
}
VC_PROOF(fp, interpolation) {
  B::InterpolationNode n{e<B::Interpolation>("op")};
  vc_assert(ValidateBrushBehaviorNode(n).ok() == is(static_cast<int>(n.interpolation), 2), "an interpolation node is accepted exactly for a known operation");
}
VC_PROOF(fp, target) {
  B::TargetNode n{e<B::Target>("target"), range()};
  bool legal = is(static_cast<int>(n.target), static_cast<int>(B::Target::kOpacityMultiplier) + 1) & range(n.target_modifier_range);
  vc_assert(ValidateBrushBehaviorNode(n).ok() == legal, "a target node is accepted exactly for a known target and a finite non-empty range");
}
// The stack discipline: an independent evaluation of the arity of every kind of node.
static const int kIn[9] = {0, 0, 1, 1, 1, 1, 2, 3, 1};
static const int kOut[9] = {1, 1, 1, 1, 1, 1, 1, 1, 0};
static B::Node node(int kind, float v = 1) {
  switch (kind) {
    case 0: return B::SourceNode{.source = B::Source::kTiltInRadians, .source_value_range = {0, v}};
    case 1: return B::ConstantNode{v};
    case 2: return B::FallbackFilterNode{B::kTilt};
    case 3: return B::ToolTypeFilterNode{B::kAllToolTypes};
    case 4: return B::DampingNode{B::DampingSource::kTimeInSeconds, v};
    case 5: return B::ResponseNode{};
    case 6: return B::BinaryOpNode{B::BinaryOp::kSum};
    case 7: return B::InterpolationNode{B::Interpolation::kLerp};
    default: return B::TargetNode{B::Target::kPinchOffset, {0, v}};
  }
}
static void check(const int* kinds, int n) {
  B b;
  int depth = 0;
  bool ok = true;
  for (int i = 0; i < n; ++i) {
    b.nodes.push_back(node(kinds[i]));
    ok = ok && depth >= kIn[kinds[i]];
    depth += kOut[kinds[i]] - kIn[kinds[i]];
  }
  ok = ok && depth == 0;
  vc_assert(ValidateBrushBehavior(b).ok() == ok, "a list of nodes is accepted exactly when every node finds its inputs and none is left over");
}
// every list of up to three nodes
VC_PROOF(fp, stack_short) {
  int n = vc_choose("n", 0, 3), kinds[3];
  for (int i = 0; i < n; ++i) kinds[i] = vc_choose("kind", 0, 8);
  check(kinds, n);
}
// every list of four to seven nodes over one node of each arity whose first node is a leaf
VC_PROOF(fp, stack_long) {
  static const int kind_of[5] = {1, 4, 6, 7, 8};
  int n = vc_choose("n", 4, 6), kinds[7], depth = 0;
  for (int i = 0; i < n; ++i) {
    kinds[i] = kind_of[i == 0 ? 0 : vc_choose("kind", 0, 4)];
    depth += kOut[kinds[i]] - kIn[kinds[i]];
    if (depth < 0) { n = i + 1; break; }  // longer lists fail at the same node
  }
  check(kinds, n);
}
// an invalid node anywhere makes the list invalid
VC_PROOF(fp, invalid_node) {
  float v = vc_float("value");
  int bad = vc_choose("bad", 0, 4);
  static const int kinds[] = {0, 1, 4, 6, 8};
  B b;
  for (int i = 0; i < 5; ++i) b.nodes.push_back(node(kinds[i], i == bad ? v : 1.f));
  bool legal = bad == 3 ? true : bad == 2 ? vc_finite(v) & (v >= 0) : bad == 1 ? vc_finite(v) : vc_finite(v) & (v != 0);
  vc_assert(ValidateBrushBehavior(b).ok() == legal, "a list is accepted exactly when each of its nodes is");
}
VC_PROOF(fp, node_equality) {
  int i = vc_choose("i", 0, 8), j = vc_choose("j", 0, 8);
  float v = vc_float("v"), w = vc_float("w");
  bool numeric = i == 0 || i == 1 || i == 4 || i == 8;
  bool same = i == j && (!numeric || v == w);
  B::Node a = node(i, v), b = node(j, w);
  vc_assert((a == b) == same && (a != b) == !same, "nodes are equal exactly when they are of one kind with equal values");
  B x, y;
  x.nodes.push_back(a);
  y.nodes.push_back(b);
  vc_assert((x == y) == same && (x != y) == !same, "behaviors are equal exactly when their nodes are");
  y.nodes.push_back(node(5));
  vc_assert(x != y, "behaviors with different node counts differ");
}
VC_PROOF(fp, field_equality) {
  B::SourceNode s = source(), t = source();
  vc_assert((s == t) == ((s.source == t.source) & (s.source_out_of_range_behavior == t.source_out_of_range_behavior) &
            (s.source_value_range[0] == t.source_value_range[0]) & (s.source_value_range[1] == t.source_value_range[1])), "source node equality");
  B::DampingNode d{e<B::DampingSource>("source"), vc_float("gap")}, c{e<B::DampingSource>("source"), vc_float("gap")};
  vc_assert((d == c) == ((d.damping_source == c.damping_source) & (d.damping_gap == c.damping_gap)), "damping node equality");
}
VC_PROOF(fp, field_equality2) {
  B::TargetNode p{e<B::Target>("target"), range()}, q{e<B::Target>("target"), range()};
  vc_assert((p == q) == ((p.target == q.target) & (p.target_modifier_range[0] == q.target_modifier_range[0]) & (p.target_modifier_range[1] == q.target_modifier_range[1])), "target node equality");
  B::FallbackFilterNode f{e<B::OptionalInputProperty>("p")}, g{e<B::OptionalInputProperty>("p")};
  vc_assert((f == g) == (f.is_fallback_for == g.is_fallback_for), "fallback node equality");
  B::BinaryOpNode b{e<B::BinaryOp>("op")}, c{e<B::BinaryOp>("op")};
  vc_assert((b == c) == (b.operation == c.operation), "binary node equality");
  B::InterpolationNode i{e<B::Interpolation>("op")}, j{e<B::Interpolation>("op")};
  vc_assert((i == j) == (i.interpolation == j.interpolation), "interpolation node equality");
}
VC_PROOF(fp, tool_equality) {
  B::EnabledToolTypes t{vc_bool("unknown"), vc_bool("mouse"), vc_bool("touch"), vc_bool("stylus")};
  B::EnabledToolTypes u{vc_bool("unknown'"), vc_bool("mouse'"), vc_bool("touch'"), vc_bool("stylus'")};
  bool same = (t.unknown == u.unknown) & (t.mouse == u.mouse) & (t.touch == u.touch) & (t.stylus == u.stylus);
  vc_assert((t == u) == same && (t != u) == !same && (B::ToolTypeFilterNode{t} == B::ToolTypeFilterNode{u}) == same, "tool type sets are equal exactly when all flags are");
}
