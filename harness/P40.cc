// Stroke input batches: an operation is accepted exactly when it leaves a valid sequence, and a rejected one changes nothing.
// VC-SOURCES: ink/strokes/input/stroke_input_batch.cc ink/strokes/input/stroke_input.cc ink/strokes/input/internal/stroke_input_validation_helpers.cc ink/geometry/angle.cc ink/geometry/vec.cc ink/geometry/affine_transform.cc ink/types/duration.cc ink/types/physical_distance.cc
// VC-OPT: max_iter=64 nomerge=1 joinequal=1 max_states=2000 branch_check=always
// VC-BOUND: batches of up to 3 inputs and sequences of up to 3 appended inputs
#include "sib.h"
VC_PROOF(fp, create_empty) {
  absl::StatusOr<StrokeInputBatch> b = StrokeInputBatch::Create(absl::Span<const StrokeInput>());
  Seq none{0};
  vc_assert(b.ok() && holds(*b, none) && holds(StrokeInputBatch(), none), "a batch without inputs is valid");
}
VC_PROOF(fp, create_one) {
  In a = any_input();
  std::vector<StrokeInput> v;
  add(v, a);
  absl::StatusOr<StrokeInputBatch> b = StrokeInputBatch::Create(v);
  vc_assert(b.ok() == valid(a), "one input is accepted exactly when all its values are in their documented ranges");
  if (b.ok()) vc_assert(holds(*b, Seq{1, {a}}), "the created batch holds the input");
}

// one arbitrary input among valid ones: "bad" is its index
static void create(int n, int bad, int format) {
  Seq q;
  q.n = n;
  float unit = vc_float("vunit");
  bool legal = true;
  for (int i = 0; i < n; ++i) q.in[i] = i == bad ? any_input() : valid_input(format, 2, unit);
  for (int i = 0; i < n; ++i) legal = legal & valid(q.in[i]) & (i == 0 || follows(q.in[i - 1], q.in[i]));
  std::vector<StrokeInput> v;
  for (int i = 0; i < n; ++i) add(v, q.in[i]);
  absl::StatusOr<StrokeInputBatch> b = StrokeInputBatch::Create(v);
  bool ok = b.ok();
  vc_assert(ok == legal, "inputs are accepted exactly when all are valid and each follows its predecessor");
  if (ok) vc_assert(holds(*b, q), "the created batch holds the inputs");
}
static void append(int n, int format) {
  Seq q = some_seq(n, format);
  StrokeInputBatch b = batch_of(q);
  In a = any_input();
  bool legal = valid(a) & (n == 0 || follows(q.in[n - 1], a));
  bool ok = b.Append(a.make()).ok();
  vc_assert(ok == legal, "an input is appended exactly when it is valid and follows the last one");
  if (ok) q.in[q.n++] = a;
  vc_assert(holds(b, q), "an accepted input is added at the end, a rejected one changes nothing");
}
static void append_span(int n, int m, int bad, int format) {
  Seq q = some_seq(n, format), r = q;
  StrokeInputBatch b = batch_of(q);
  std::vector<StrokeInput> v;
  bool legal = true;
  for (int i = 0; i < m; ++i) {
    In a = i == bad ? any_input() : valid_input(format, 1, 0.5f);
    legal = legal & valid(a) & (r.n == 0 || follows(r.in[r.n - 1], a));
    r.in[r.n++] = a;
    add(v, a);
  }
  bool ok = b.Append(absl::MakeConstSpan(v)).ok();
  vc_assert(ok == legal, "a sequence is appended exactly when the result is a valid sequence");
  vc_assert(holds(b, ok ? r : q), "an accepted sequence is added at the end, a rejected one changes nothing");
}
static void set(int n, int i, int format) {
  Seq q = some_seq(n, format);
  StrokeInputBatch b = batch_of(q), copy;
  if (format & 1) copy = b;
  In a = any_input();
  bool legal = valid(a);
  if (i > 0) legal = legal & follows(q.in[i - 1], a);
  if (i + 1 < n) legal = legal & follows(a, q.in[i + 1]);
  bool ok = b.Set(i, a.make()).ok();
  vc_assert(ok == legal, "an input is overwritten exactly when the new one is valid and fits its neighbours");
  Seq s = q;
  if (ok) s.in[i] = a;
  vc_assert(holds(b, s), "an accepted input replaces the old one, a rejected one changes nothing");
  if (format & 1) vc_assert(holds(copy, q), "a copy is unaffected");
}
VC_PROOF(fp, append_0) { append(0, 0); }
VC_PROOF(fp, create_two) {  // two arbitrary inputs
  In a = any_input(), c = any_input();
  std::vector<StrokeInput> v;
  add(v, a), add(v, c);
  absl::StatusOr<StrokeInputBatch> b = StrokeInputBatch::Create(v);
  bool ok = b.ok();
  vc_assert(ok == (valid(a) & valid(c) & follows(a, c)), "two inputs are accepted exactly when both are valid and consistent");
  if (ok) vc_assert(holds(*b, Seq{2, {a, c}}), "the created batch holds both inputs");
}
VC_PROOF(fp, create_2) { create(2, vc_choose("bad", 0, 1), vc_choose("format", 0, 7)); }
VC_PROOF(fp, create_3a) { create(3, 0, vc_choose("format", 0, 7)); }
VC_PROOF(fp, create_3b) { create(3, 1, vc_choose("format", 0, 7)); }
VC_PROOF(fp, create_3c) { create(3, 2, vc_choose("format", 0, 7)); }
VC_PROOF(fp, append_1) { append(1, vc_choose("format", 0, 7)); }
VC_PROOF(fp, append_2) { append(2, vc_choose("format", 0, 7)); }
VC_PROOF(fp, append_0_2) { append_span(0, 2, vc_choose("bad", 0, 1), vc_choose("format", 0, 7)); }
VC_PROOF(fp, append_1_2) { append_span(1, 2, vc_choose("bad", 0, 1), vc_choose("format", 0, 7)); }
VC_PROOF(fp, append_2_0) { append_span(2, 0, 0, vc_choose("format", 0, 7)); }
VC_PROOF(fp, set_1) { set(1, 0, vc_choose("format", 0, 7)); }
VC_PROOF(fp, set_2a) { set(2, 0, vc_choose("format", 0, 7)); }
VC_PROOF(fp, set_2b) { set(2, 1, vc_choose("format", 0, 7)); }
VC_PROOF(fp, set_3a) { set(3, 0, vc_choose("format", 0, 7)); }
VC_PROOF(fp, set_3b) { set(3, 1, vc_choose("format", 0, 7)); }
VC_PROOF(fp, set_3c) { set(3, 2, vc_choose("format", 0, 7)); }
static void append_batch(int n, int m, int format, int format2) {
  Seq q = some_seq(n, format), r = some_seq(m, format2);
  StrokeInputBatch b = batch_of(q), c = batch_of(r);
  bool legal = (n == 0) | (m == 0);
  if (n > 0 && m > 0) legal = follows(q.in[n - 1], r.in[0]);
  bool ok = b.Append(c).ok();
  vc_assert(ok == legal, "a batch is appended exactly when its first input follows the last one");
  Seq s = q;
  if (ok)
    for (int i = 0; i < m; ++i) s.in[s.n++] = r.in[i];
  vc_assert(holds(b, s), "an accepted batch is added at the end, a rejected one changes nothing");
  vc_assert(holds(c, r), "the appended batch is unchanged");
}
VC_PROOF(fp, append_batch_empty) {
  int k = vc_choose("k", 0, 2);
  append_batch(k == 1, k == 2, 7, 7);
}
VC_PROOF(fp, append_batch_11a) { append_batch(1, 1, vc_choose("format", 0, 7), 5); }
VC_PROOF(fp, append_batch_11b) { append_batch(1, 1, 2, vc_choose("format2", 0, 7)); }
VC_PROOF(fp, append_batch_22) {
  int f = vc_choose("format", 0, 7);
  append_batch(2, 2, f, f);
}
