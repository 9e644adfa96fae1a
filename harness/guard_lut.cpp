// The part of guard.cpp that needs functions.h
#include <rofl/common/functions.h>
struct GuardLut { rofl::PnebiLUT lut; };
GuardLut* lutNew() { return new GuardLut; }
void lutInit(GuardLut* l, int k) { l->lut.init(k, 0.25); }
double lutEval(GuardLut* l, int k, double x) { return l->lut.eval(k, x); }
