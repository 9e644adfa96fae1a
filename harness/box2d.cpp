#include "box_case.h"
json box2d(const json& c) { return boxCase<double, 2>(c); }
