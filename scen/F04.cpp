#include "scen/fworld.hpp"
using namespace fw;
static Profile base() { Profile p; p.mask = C_MOVE | C_ABORT | C_IOCANCEL | C_IOCLOSE | C_RESULT | C_COMPLETE | C_FDS; p.w_move = 8; p.w_cancel = 3; p.w_chain = 0; return p; }
SCENARIO_W(F04, moves, 3) { Profile p = base(); run_world(p); }
SCENARIO_W(F04, moves_long, 2) { Profile p = base(); p.actions = 24; run_world(p); }
SCENARIO_W(F04, moves_torn_down, 1) { Profile p = base(); p.teardown = 2; run_world(p); }
