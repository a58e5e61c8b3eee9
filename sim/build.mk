# Builds the simulator from $(REPO)'s working tree into $(OUT).  Nothing is written in $(REPO).
REPO ?= /repo
SIM  ?= $(dir $(abspath $(lastword $(MAKEFILE_LIST))))
CXX  := $(CCACHE) g++
SAN  := -fsanitize=address -fno-omit-frame-pointer
FLAGS:= -std=gnu++17 -w -O1 -g1 -fno-pie -I$(REPO) -I$(OUT)/gen

LIBSRC  := $(filter-out %/config.cpp,$(shell cd $(REPO) && find TameParse -name '*.cpp' | sort))
BOOTSRC := $(filter-out TameParse/Compiler/import_stage.cpp TameParse/Compiler/language_builder_stage.cpp TameParse/Compiler/parser_stage.cpp TameParse/Compiler/test_stage.cpp TameParse/Language/language_parser.cpp,$(LIBSRC))
LIBOBJ  := $(LIBSRC:%.cpp=$(OUT)/lib/%.o)
BOOTOBJ := $(BOOTSRC:%.cpp=$(OUT)/boot/%.o) $(OUT)/boot/bootstrap/main.o
SIMSRC  := $(notdir $(wildcard $(SIM)*.cpp))
SIMOBJ  := $(SIMSRC:%.cpp=$(OUT)/sim/%.o) $(OUT)/sim/tool_main.o $(OUT)/sim/tool_console.o

all: $(OUT)/sim.exe
$(OUT)/gen/definition_tp.h: $(REPO)/TameParse/Language/definition.tp
	@mkdir -p $(OUT)/gen && cd $(OUT)/gen && cp $(REPO)/TameParse/Language/definition.tp definition.tp && xxd -i definition.tp > definition_tp.h
$(OUT)/boot/%.o: $(REPO)/%.cpp $(OUT)/gen/definition_tp.h
	@mkdir -p $(dir $@) && $(CXX) $(subst -O1 -g1,-O0,$(FLAGS)) -DTAMEPARSE_BOOTSTRAP=1 -c $< -o $@
$(OUT)/gen/tameparse_language.cpp: $(BOOTOBJ)
	@$(CXX) -no-pie $(BOOTOBJ) -o $(OUT)/boot/bootstrap.exe && cd $(OUT)/gen && $(OUT)/boot/bootstrap.exe > bootstrap.log 2>&1
	@test -s $@ && test -s $(OUT)/gen/tameparse_language.h
$(OUT)/lib/TameParse/Language/language_parser.o: $(OUT)/gen/tameparse_language.cpp
$(OUT)/lib/%.o: $(REPO)/%.cpp | $(OUT)/gen/definition_tp.h
	@mkdir -p $(dir $@) && $(CXX) $(FLAGS) $(SAN) -c $< -o $@
$(OUT)/sim/%.o: $(SIM)%.cpp $(wildcard $(SIM)*.h)
	@mkdir -p $(dir $@) && $(CXX) $(FLAGS) $(SAN) -c $< -o $@
$(OUT)/sim/tool_main.o: $(REPO)/parsetool/main.cpp | $(OUT)/gen/definition_tp.h
	@mkdir -p $(dir $@) && $(CXX) $(FLAGS) $(SAN) -std=gnu++14 -Dmain=tool_main -I$(REPO)/parsetool -c $< -o $@
$(OUT)/sim/tool_console.o: $(REPO)/parsetool/boost_console.cpp | $(OUT)/gen/definition_tp.h
	@mkdir -p $(dir $@) && $(CXX) $(FLAGS) $(SAN) -I$(REPO)/parsetool -c $< -o $@
$(OUT)/lib/tameparse_language.o: $(OUT)/gen/tameparse_language.cpp
	@mkdir -p $(dir $@) && $(CXX) $(FLAGS) $(SAN) -c $< -o $@
$(OUT)/libtp.a: $(LIBOBJ) $(OUT)/lib/tameparse_language.o
	@rm -f $@ && ar crs $@ $^
$(OUT)/sim.exe: $(OUT)/gen/tameparse_language.cpp $(SIMOBJ) $(OUT)/libtp.a
	@$(CXX) -no-pie $(SAN) $(SIMOBJ) $(OUT)/libtp.a -lboost_system -lboost_filesystem -lboost_program_options -ldl -o $@

# Languages generated by the tool, compiled, and linked with the simulator (property C13).
GN   ?= 16
G13 := $(OUT)/g13-$(GN)
GLUE := $(shell seq 0 $$(( $(GN) - 1 )))
GOBJ := $(GLUE:%=$(G13)/glue%.o) $(G13)/all.o
gen13: $(OUT)/sim13-$(GN).exe
$(G13)/all.cpp: $(OUT)/sim.exe
	@rm -rf $(G13) && mkdir -p $(G13) && $(OUT)/sim.exe generate $(G13) $(GN) > $(G13)/count && test "$$(cat $(G13)/count)" = "$(GN)"
$(GLUE:%=$(G13)/glue%.cpp): $(G13)/all.cpp ;
$(G13)/%.o: $(G13)/%.cpp
	@$(subst ccache,,$(CXX)) $(subst -O1 -g1,-O0 -g1,$(FLAGS)) $(SAN) -I$(SIM) -I$(G13) -c $< -o $@ 2> $@.log || { head -c 1500 $@.log 1>&2; $(subst ccache,,$(CXX)) $(subst -O1 -g1,-O0,$(FLAGS)) $(SAN) '-DBROKEN="does not compile"' -I$(SIM) -c $< -o $@; }
$(OUT)/sim13-$(GN).exe: $(GOBJ) $(OUT)/sim.exe
	@$(CXX) -no-pie $(SAN) $(SIMOBJ) $(GOBJ) $(OUT)/libtp.a -lboost_system -lboost_filesystem -lboost_program_options -ldl -o $@
