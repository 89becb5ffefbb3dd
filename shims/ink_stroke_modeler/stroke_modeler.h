#ifndef VCSHIM_STROKE_MODELER_H_
#define VCSHIM_STROKE_MODELER_H_
#include "ink_stroke_modeler/types.h"
namespace ink::stroke_model {
class StrokeModeler { int opaque_ = 0; };
}
#endif
