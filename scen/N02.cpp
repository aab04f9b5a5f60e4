// N02: the SOCKS4a client against every proxy.
#include "scen/tunnel.hpp"
SCENARIO_W(N02, session, 3) { sk::session(false); }
SCENARIO_W(N02, tunnel, 1) { tn::tunnel(false); }
