// Shared by the properties of simulated runs.
#pragma once
#include "simworld.h"
#include "codecs.h"
struct ApiOpts { int slices = 12; bool controls = false; int final_saves = 1; int ri = 1; bool nr = true; bool fault_free_last = false; };
static const int SI[] = {0, 1, 2, 5, 20, 600}, RI[] = {0, 1, 3, 10};
void common_setup();
int c_init(const std::string &spf, int ri, bool nr, void **inst); int c_run(void *i); int c_save(void *i); void c_close(void *i);
void c_control(void *i, int c); std::string c_state(void *i); std::string c_res(void *i);
Node *start_api(Life *l, int copy, ApiOpts o, int64_t t0); // stand-in codec
void script(Life *l);
std::string spec_str(const Spec &s);
void skew_events();
std::string resp(const Spec &s);
std::string mark_of(const Spec &s);
