# Builds one simulation binary per property: build/bin/<ID>
# (core, kernel, net and driver plain; the scenario unit, which includes the library
# under test header-only from $(REPO), instrumented against the simulator's runtime).
REPO ?= /repo
V ?= /verif
B ?= $(V)/build
CXX = g++
CORE = core kernel net driver meta
COREOBJ = $(CORE:%=$(B)/obj/%.o)
PLAIN = -std=c++20 -O2 -g1 -Wall -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0
INSTR = -std=c++20 -O1 -g1 -fsanitize=thread -fno-builtin-memcpy -fno-builtin-memmove -fno-builtin-memset \
 -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -Wno-tsan -DASIOEXT_HEADER_ONLY \
 -DASIO_DISABLE_SMALL_BLOCK_RECYCLING -I$(REPO)/include -I$(V)
LINK = -no-pie -rdynamic -pthread $(shell $(V)/tools/wraps.sh)

core: $(COREOBJ)
.PHONY: core
$(B)/bin/%: $(B)/obj/scen_%.o $(COREOBJ)
	@mkdir -p $(B)/bin
	$(CXX) -o $@ $^ $(LINK) $(LIBS_$*) -lboost_filesystem -lboost_system -ldl
$(B)/obj/scen_%.o: $(V)/scen/%.cpp $(V)/tools/sim.mk
	@mkdir -p $(B)/obj
	$(CXX) $(INSTR) $(FLAGS_$*) -MMD -MP -c $< -o $@
$(B)/obj/%.o: $(V)/sim/%.cpp $(V)/tools/sim.mk
	@mkdir -p $(B)/obj
	$(CXX) $(PLAIN) -MMD -MP -c $< -o $@
.SECONDARY:
-include $(wildcard $(B)/obj/*.d)
