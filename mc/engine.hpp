// Helper for checks that compare the implementation with the reference model on one (grammar, input, options) case.
#pragma once
#include "explore.hpp"
#include "impl.hpp"
#include "model.hpp"
namespace engine {
enum { AMBIG = C_USER0, FATAL = C_USER1, CHANGED = C_USER2 };
struct Res { std::string out; bool changed = false, ambiguous = false; };
// runs both; fails the case on any difference. `multiset` compares the readings of a cohort as a multiset.
Res compare(Ctx& c, const std::string& grammar, const std::string& input, const impl::Args& args = {}, bool multiset = false);
// compact notation for input: cohorts separated by blanks, readings by '|', tags by ',' ; sub-readings by '/' (first sub first)
//   "a:x,N|y,V b:z,N"  ->  "<a>"\n\t"x" N\n\t"y" V\n...
std::string cohorts(const std::string& compact);
std::vector<std::pair<std::string, int>> counters();
std::vector<std::string> assumptions();
}
