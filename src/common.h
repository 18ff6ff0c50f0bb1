// Steps shared by several properties.
#pragma once
#include "pbt.h"
#include "vm.h"
#include "lang.h"

// Creates the VM, compiles and runs. Returns a complaint if something that must work did not.
// gcInterval 0 leaves the default.
std::string compileAndRun(Host &h, const std::string &text, uint32_t gcInterval = 0);
// Fails the case if host log, error state or globals differ from the model's.
void compareWithModel(pbt::Case &c, Host &h, lang::Model &m, lang::Program &p);
// Fails with the first differing line.
void compareText(pbt::Case &c, const char *what, const std::string &expected, const std::string &actual);
// Deletes the VM and fails on leaks or allocator misuse (user data not arriving is C07's business).
void finish(pbt::Case &c, Host &h);
