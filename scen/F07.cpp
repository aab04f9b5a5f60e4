#include "scen/fworld.hpp"
using namespace fw;
static Profile base() { Profile p; p.mask = C_REUSE | C_IOCLOSE; p.fd_reuse = true; p.w_close = 5; p.w_destroy = 3; p.w_move = 3; p.w_open = 10; p.w_op = 14; return p; }
SCENARIO_W(F07, reuse, 3) { Profile p = base(); run_world(p); }
SCENARIO_W(F07, reuse_long, 2) { Profile p = base(); p.actions = 24; run_world(p); }
SCENARIO_W(F07, reuse_torn_down, 1) { Profile p = base(); p.teardown = 2; run_world(p); }
