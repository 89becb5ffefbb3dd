// Stroke input batches return exactly what was stored, in every format; copies are independent; iteration visits the inputs in order.
// VC-SOURCES: ink/strokes/input/stroke_input_batch.cc ink/strokes/input/stroke_input.cc ink/strokes/input/internal/stroke_input_validation_helpers.cc ink/geometry/angle.cc ink/geometry/vec.cc ink/geometry/affine_transform.cc ink/types/duration.cc ink/types/physical_distance.cc
// VC-OPT: max_iter=64 nomerge=1 joinequal=1 max_states=2000 branch_check=always
// VC-BOUND: batches of up to 4 inputs
#include "sib.h"
static int format() { return vc_choose("format", 0, 7); }
VC_PROOF(fp, read_back) {
  Seq q = some_seq(vc_choose("n", 0, 3), format());
  StrokeInputBatch b = batch_of(q);
  vc_assert(holds(b, q), "a batch returns the inputs it was created from");
}
VC_PROOF(fp, iterate) {
  Seq q = some_seq(vc_choose("n", 0, 3), format());
  const StrokeInputBatch b = batch_of(q);
  int i = 0;
  bool ok = true;
  for (StrokeInputBatch::ConstIterator it = b.begin(); it != b.end(); ++it) {
    if (i >= q.n) { ok = false; break; }
    ok = ok & same(*it, q.in[i]) & (it->pressure == q.in[i].p) & !(it == b.end());
    ++i;
  }
  vc_assert(ok & (i == q.n), "iterating visits every input once, in order");
  vc_assert((b.begin() == b.end()) == (q.n == 0), "only an empty batch has an empty range");
}
VC_PROOF(fp, iterator_copies) {
  Seq q = some_seq(2, format());
  const StrokeInputBatch b = batch_of(q);
  auto it = b.begin();
  auto old = it++;
  vc_assert(same(*old, q.in[0]) & same(*it, q.in[1]) & (old == b.begin()) & (it != old), "post-increment returns the previous position");
  auto& r = ++old;
  vc_assert((&r == &old) & (old == it) & same(*old, q.in[1]), "pre-increment returns the iterator");
  vc_assert(++it == b.end(), "the range ends after the last input");
}
VC_PROOF(fp, iterate_range_for) {  // after the batch was modified
  Seq q = some_seq(3, 7 * vc_choose("f", 0, 1));
  StrokeInputBatch b = batch_of(q);
  b.Erase(1, 1);
  Seq s{2, {q.in[0], q.in[2]}};
  int i = 0;
  bool ok = true;
  for (const StrokeInput& in : b) {
    if (i >= 2) { ok = false; break; }
    ok = ok & same(in, s.in[i]);
    ++i;
  }
  vc_assert(ok & (i == 2), "iterating visits what is left after an erase");
}
static Seq without(const Seq& q, int start, int count) {
  Seq s{0};
  for (int i = 0; i < q.n; ++i)
    if (i < start || i >= start + count) s.in[s.n++] = q.in[i];
  return s;
}
static void erase(int n, bool shared, int f) {
  Seq q = some_seq(n, f);
  StrokeInputBatch b = batch_of(q), copy;
  if (shared) copy = b;
  int start = vc_choose("start", 0, n), count = vc_choose("count", 0, 4);
  if (count == 4) b.Erase(start);
  else b.Erase(start, count);
  vc_assert(holds(b, without(q, start, count)), "erasing removes exactly the given range, clamped to the end");
  if (shared) vc_assert(holds(copy, q), "erasing does not affect copies");
}
VC_PROOF(fp, erase_1) { erase(1, vc_choose("shared", 0, 1), format()); }
VC_PROOF(fp, erase_2) { erase(2, vc_choose("shared", 0, 1), 3 * vc_choose("f", 0, 2)); }
VC_PROOF(fp, erase_3) { erase(3, vc_choose("shared", 0, 1), 7); }
VC_PROOF(fp, erase_0) { erase(0, vc_choose("shared", 0, 1), 0); }
VC_PROOF(fp, erase_huge) {
  Seq q = some_seq(2, 7);
  StrokeInputBatch b = batch_of(q);
  b.Erase(1, std::numeric_limits<size_t>::max() - vc_choose("less", 0, 2));
  vc_assert(holds(b, Seq{1, {q.in[0]}}), "a count past the end erases up to the end");
}
VC_PROOF(fp, clear) {
  Seq q = some_seq(vc_choose("n", 0, 2), format());
  StrokeInputBatch b = batch_of(q), copy;
  int shared = vc_choose("shared", 0, 1);
  if (shared) copy = b;
  b.Clear();
  vc_assert(holds(b, Seq{0}), "a cleared batch is empty and has no format");
  if (shared) vc_assert(holds(copy, q), "clearing does not affect copies");
  Seq r = some_seq(1, 7 - 7 * vc_choose("f", 0, 1));
  vc_assert(b.Append(r.in[0].make()).ok(), "a cleared batch accepts any valid input");
  vc_assert(holds(b, r), "a cleared batch holds what is added afterwards");
  if (shared) vc_assert(holds(copy, q), "refilling does not affect copies");
}
// append one input to either of two copies; then overwrite in the other one
VC_PROOF(fp, copies) {
  int f = format();
  Seq q = some_seq(3, f);
  Seq two{2, {q.in[0], q.in[1]}};
  StrokeInputBatch b = batch_of(two);
  int how = vc_choose("how", 0, 2);
  StrokeInputBatch c = how == 0 ? StrokeInputBatch(b) : how == 1 ? b.MakeDeepCopy() : StrokeInputBatch();
  if (how == 2) c = b;
  vc_assert(holds(c, two), "a copy holds the same inputs");
  bool first = vc_choose("first", 0, 1);
  StrokeInputBatch& changed = first ? b : c;
  StrokeInputBatch& kept = first ? c : b;
  vc_assert(changed.Append(q.in[2].make()).ok(), "a valid input is appended");
  vc_assert(holds(changed, q) & holds(kept, two), "appending to a copy changes only that copy");
  kept.Erase(0, 1);
  vc_assert(holds(changed, q) & holds(kept, Seq{1, {q.in[1]}}), "erasing from a copy changes only that copy");
}
VC_PROOF(fp, copy_set) {
  int f = format();
  Seq q = some_seq(2, f);
  StrokeInputBatch b = batch_of(q), c = b;
  In a = valid_input(f, q.in[0].tool, q.in[0].unit);
  vc_assume(follows(q.in[0], a));
  vc_assert(c.Set(1, a.make()).ok(), "a valid input overwrites another");
  vc_assert(holds(b, q), "overwriting in a copy does not affect the source");
  vc_assert(holds(c, Seq{2, {q.in[0], a}}), "overwriting changes only the given index");
}
// overwriting the only input may change everything about it, the format included
VC_PROOF(fp, set_only) {
  int f = format(), g = vc_choose("to", 0, 7);
  Seq q = some_seq(1, f);
  StrokeInputBatch b = batch_of(q), copy = b;
  In a = valid_input(g, (f + g) % 4, (f + 2 * g) % 3 * 0.25f);
  vc_assert(b.Set(0, a.make()).ok(), "a valid input overwrites the only one");
  vc_assert(holds(b, Seq{1, {a}}), "the batch holds the new input, with its format");
  vc_assert(holds(copy, q), "overwriting does not affect copies");
}
VC_PROOF(fp, moves) {
  Seq q = some_seq(2, 7 * vc_choose("f", 0, 1));
  StrokeInputBatch b = batch_of(q), c = std::move(b), d;
  vc_assert(holds(c, q), "a move keeps the inputs");
  d = std::move(c);
  vc_assert(holds(d, q), "a move assignment keeps the inputs");
}
VC_PROOF(fp, append_self_empty) {
  Seq q = some_seq(2, 5);
  StrokeInputBatch b = batch_of(q), e;
  vc_assert(e.Append(b).ok() && holds(e, q), "appending a batch to an empty one copies it");
  e.Clear();
  vc_assert(holds(b, q), "the batch appended is independent of the result");
  vc_assert(b.Append(e).ok() && holds(b, q), "appending an empty batch changes nothing");
}
// a transform changes positions only
VC_PROOF(fp, transform) {
  Seq q = some_seq(vc_choose("n", 0, 3), format());
  StrokeInputBatch b = batch_of(q), copy = b;
  AffineTransform t(vc_float("ta"), vc_float("tb"), vc_float("tc"), vc_float("td"), vc_float("te"), vc_float("tf"));
  b.Transform(t);
  bool ok = b.Size() == static_cast<size_t>(q.n);
  for (int i = 0; i < q.n; ++i) {
    StrokeInput s = b.Get(i);
    Point p = t.Apply(Point{q.in[i].x, q.in[i].y});
    In a = q.in[i];
    ok = ok & vc_same(s.position.x, p.x) & vc_same(s.position.y, p.y);
    s.position = {a.x, a.y};
    ok = ok & same(s, a);
  }
  vc_assert(ok, "a transform maps every position and changes nothing else");
  vc_assert(holds(copy, q), "transforming does not affect copies");
}
// longer sequences, concrete times, symbolic data
VC_PROOF(fp, four) {
  int f = format();
  Seq q;
  q.n = 4;
  float unit = vc_choose("unit", 0, 1) * 0.25f;
  for (int i = 0; i < 4; ++i) {
    q.in[i] = valid_input(f, 1, unit);
    vc_assume(q.in[i].t == i + 1);
  }
  StrokeInputBatch b = batch_of(q);
  vc_assert(holds(b, q), "a batch returns the inputs it was created from");
  StrokeInputBatch c = b;
  c.Erase(1, 2);
  vc_assert(holds(c, Seq{2, {q.in[0], q.in[3]}}), "erasing removes exactly the given range, clamped to the end");
  In a = valid_input(f, 1, unit);
  vc_assume((a.t > 1) & (a.t < 4));
  vc_assert(b.Set(2, a.make()).ok() == (a.t >= 2 && !(a.t == 2 && a.x == q.in[1].x && a.y == q.in[1].y)), "an input is overwritten exactly when it fits its neighbours");
}
