// Harness interface: implemented by the symbolic engine, and natively (replay) by tools/native.cpp.
#pragma once
extern "C" {
double tsx_double(const char *name);
int tsx_int(const char *name, int lo, int hi);
unsigned char tsx_byte(const char *name);
int tsx_choice(const char *name, int n);
void tsx_assume(int c);
void tsx_check(int c, const char *msg);
int tsx_same(double a, double b);
int tsx_param(const char *name, int dflt);
void tsx_cover(const char *name);
void tsx_note(const char *text);
void tsx_show(double v);
int tsx_is_real(void);
int tsx_symbolic(void);
void tsx_depth_reset(void);
int tsx_depth_max(void);
int tsx_live(void);
void tsx_skip(const char *msg);
void tsx_outside(const char *why);
int tsx_is_const(double v);
}
extern "C" void harness_main();
