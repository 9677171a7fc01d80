// Interface between property harnesses and the checking engine.  The same
// harness source is compiled twice: instrumented and linked with runtime.cpp
// (symbolic execution), and uninstrumented with replay.cpp (plain native run
// on recorded inputs, used to confirm counterexamples and to validate the
// encoding).
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
// Symbolic inputs.  sx_real: any real in [lo,hi] (exact arithmetic);
// sx_fp: any IEEE double (bit-precise); sx_int: 64-bit two's complement.
double sx_real(const char *name, double lo, double hi);
double sx_fp(const char *name);
long sx_int(const char *name, long lo, long hi);
unsigned long sx_u64(const char *name);
// One of 0..n-1, explored exhaustively as separate paths
int sx_choose(const char *name, int n);
void sx_assume(int cond);
// Obligation: must hold for every input reaching this point
void sx_check(int cond, const char *label);
// |a-b| <= tol
void sx_near(double a, double b, double tol, const char *label);
// a <= b + tol
void sx_le(double a, double b, double tol, const char *label);
// Vacuity witness: this point must be reachable
void sx_reach(const char *label);
// Value compared between the encoding and the native run
void sx_observe(const char *name, double v);
// Native replays report the failure of an unconditional obligation
void sx_fail(const char *label);
// The value of the run at hand, for text handed to code that reads the symbolic
// one elsewhere
double sx_concrete(double v);
// Prefer forking over if-then-else terms for double selects
void sx_fork_selects(int on);
// Harness parameter fixed per registered run (not an input)
long sx_param(const char *name, long dflt);
#ifdef __cplusplus
}
#endif
// entry point supplied by the harness
#ifdef __cplusplus
extern "C"
#endif
void sx_main();
