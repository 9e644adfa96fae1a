#include "box_case.h"
json box3f(const json& c) { return boxCase<float, 3>(c); }
