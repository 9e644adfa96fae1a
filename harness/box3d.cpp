#include "box_case.h"
json box3d(const json& c) { return boxCase<double, 3>(c); }
