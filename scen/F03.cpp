#include "scen/fworld.hpp"
using namespace fw;
static Profile base() { Profile p; p.mask = C_ABORT | C_CANCELRES | C_IOCANCEL | C_RESULT; p.w_cancel = 6; p.w_move = 0; p.w_op = 14; return p; }
SCENARIO_W(F03, cancel, 3) { Profile p = base(); run_world(p); }
SCENARIO_W(F03, crowded, 2) { Profile p = base(); p.actions = 25; p.w_op = 24; p.w_close = 1; p.w_destroy = 0; p.w_chain = 0; run_world(p); }
SCENARIO_W(F03, memory_level, 1) { Profile p = base(); p.race = true; p.actions = 8; run_world(p); }
