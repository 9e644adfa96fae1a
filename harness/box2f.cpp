#include "box_case.h"
json box2f(const json& c) { return boxCase<float, 2>(c); }
