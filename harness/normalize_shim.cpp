#include <rofl/common/functions.h>
double rofl_normalize(int half, double a) { return half ? rofl::normalize180(a) : rofl::normalize360(a); }
