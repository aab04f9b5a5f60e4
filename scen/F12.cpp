#include "scen/app.hpp"
#include "scen/fworld.hpp"
using namespace fw;
static Profile base() { Profile p; p.mask = C_ABORT | C_IOCANCEL | C_IOCLOSE | C_RESULT | C_MOVE | C_SHUTDOWN | C_FDS | C_COMPLETE | C_CANCELRES; p.race = true; p.min_actors = 2; p.actions = 8; p.w_sync = 4; p.w_destroy = 3; p.w_move = 3; return p; }
SCENARIO_W(F12, shared_context, 3) { Profile p = base(); run_world(p); }
SCENARIO_W(F12, churn, 2) { Profile p = base(); p.w_op = 3; p.w_destroy = 8; p.w_move = 8; p.w_open = 8; p.actions = 12; run_world(p); }
SCENARIO_W(F12, then_destroyed, 2) { Profile p = base(); p.teardown = 2; p.w_abandon = 60; run_world(p); }
SCENARIO_W(F12, application, 1) { app::app(false); }
