// Running one program under different schedules and comparing what is observable.
#pragma once
#include "pbt.h"
#include "vm.h"
#include "lang.h"
#include "common.h"
#include <memory>

// Everything observable about a finished (or stopped) run.
struct Outcome { std::string log, globals, errors; bool error = false, ended = false; uint64_t instructions = 0; };
Outcome outcomeOf(Host &h, const std::vector<std::string> &names);
void compareOutcome(pbt::Case &c, const char *what, const Outcome &expected, const Outcome &actual);

// A random program for the comparison checks: generated, printed, and run by the model only to
// know that it ends and does not depend on what the checks leave out. Discards the case otherwise.
struct GenProgram { lang::Program p; std::string text; lang::Model m; std::vector<std::string> names; };
void makeProgram(pbt::Case &c, GenProgram &gp, const lang::GenOpts &o, bool layout = false);

// Creates the VM and compiles the text; false (with a failed case) never happens for well-formed programs.
void prepare(pbt::Case &c, Host &h, const std::string &text);
// Plain run in large slices with a huge collection interval: the reference.
Outcome referenceRun(pbt::Case &c, const GenProgram &gp, bool countInstructions = false);
static const uint64_t RUN_CAP = 400000;   // instructions; generated programs need far fewer

// Statements that are errors by themselves, found on the line they stand on.
extern const std::vector<const char *> illFormed;
// A statement that fails when it is run.
lang::Stmt *failingStatement(lang::Program &p, pbt::Gen &g);
// Puts up to k of them at random places of the program: any block, function or loop body.
void plantFailures(lang::Program &p, pbt::Gen &g, int k);
