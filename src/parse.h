// An independent reader of scripts: tokens, grammar and scopes, into the AST of lang.h.
#pragma once
#include "lang.h"

namespace lang {

struct Tok { enum K { End, Id, Int, Flt, Str, Op } k = End; std::string s; int line = 1; };   // Str: s is the value; Op: operators, punctuation and keywords
enum class Verdict { Ok, Ill, Unknown };    // Unknown: nothing is said about whether this is a script
struct Parsed { Verdict v = Verdict::Ok; std::string why; };
// Tokens of a text; Ill when it has none, Unknown when in doubt.
Parsed tokenize(const std::string &text, std::vector<Tok> &out);
std::string spell(const Tok &t);
Parsed parse(const std::string &text, Program &p);

}
