#ifndef GENLEX_H
#define GENLEX_H
#include "core.h"
#include "ref_regex.h"
namespace sim {
struct LexSpec { std::vector<std::string> re; std::vector<int> alpha; };
LexSpec gen_lexspec(Rng& r, bool asciiOnly = false);
std::string gen_text(Rng& r, const LexSpec& sp, int approx, bool latin, bool hugeToken);
std::string gen_member(Rng& r, const std::string& re);        // a random string of the regex (UTF-8)
}
#endif
