// N01: the SOCKS5 client against every proxy.
#include "scen/tunnel.hpp"
SCENARIO_W(N01, session, 3) { sk::session(true); }
SCENARIO_W(N01, tunnel, 1) { tn::tunnel(true); }
