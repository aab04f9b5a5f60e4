#include "scen/app.hpp"
#include "scen/fworld.hpp"
#include "scen/ftpool.hpp"
using namespace fw;
static Profile base() { Profile p; p.mask = C_COMPLETE | C_LEAK | C_FDS | C_SHUTDOWN | C_ABORT; p.teardown = 1; p.w_chain = 3; p.w_destroy = 2; return p; }
SCENARIO_W(F06, younger_strand_service, 1) { Profile p = base(); p.late_strand = true; p.race = true; p.actions = 8; run_world(p); }
SCENARIO_W(F06, destroyed, 3) { Profile p = base(); p.actions = 8; run_world(p); }
SCENARIO_W(F06, destroyed_busy, 2) { Profile p = base(); p.actions = 16; p.w_op = 16; p.w_chain = 4; run_world(p); }
SCENARIO_W(F06, files_only, 2) { Profile p = base(); p.teardown = 0; p.w_destroy = 6; run_world(p); }
SCENARIO_W(F06, memory_level, 1) { Profile p = base(); p.race = true; p.actions = 6; run_world(p); }
SCENARIO_W(F06, files_on_thread_pool, 1) { ftp::files_on_pool(true); }
SCENARIO_W(F06, application, 1) { app::app(true); }
