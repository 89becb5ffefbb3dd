#ifndef VCSHIM_STROKE_MODEL_TYPES_H_
#define VCSHIM_STROKE_MODEL_TYPES_H_
// Verification shim: the third-party stroke modeler is not under contract; only
// the type names that ink headers mention exist.
namespace ink::stroke_model {
struct Result { float opaque[8]; };
}
#endif
