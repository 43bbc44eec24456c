// Parses its arguments with the option parser of the program.
//   drv_opt STRICT ARGS...   prints one JSON object: the option table, the values and the remaining arguments; exits with 99
#include "candy/frontend/CLIOptions.h"
#include "candy/utils/Options.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
using namespace Candy;
struct Peek : public Option {
    static std::vector<Option*>& all() { return getOptionList(); }
    static const char* nameOf(Option* o) { return static_cast<Peek*>(o)->name; }
};
struct PI : public IntOption { static IntRange of(IntOption* o) { return static_cast<PI*>(o)->range; } };
struct PD : public DoubleOption { static DoubleRange of(DoubleOption* o) { return static_cast<PD*>(o)->range; } };
static std::string codes(const char* s) { std::string r = "["; for (size_t i = 0; s[i]; i++) r += (i ? "," : "") + std::to_string((unsigned char)s[i]); return r + "]"; }
static std::string num(double d) { double v = d * 10000; if (v > 2147483647.) v = 2147483647.; if (v < -2147483647.) v = -2147483647.; return std::to_string((long long)std::llround(v)); }
int main(int argc, char** argv) {
    bool strict = atoi(argv[1]); argv[1] = argv[0]; int ac = argc - 1; char** av = argv + 1;
    if ((int)SolverOptions::verb < 0) return 97;     // links the option definitions
    parseOptions(ac, av, strict);
    std::string t = "[", v = "[", r = "[";
    for (Option* o : Peek::all()) {
        std::string kind, lo = "0", hi = "0", li = "true", hinc = "true", val;
        if (auto p = dynamic_cast<BoolOption*>(o)) { kind = "bool"; val = (bool)*p ? "true" : "false"; }
        else if (auto p = dynamic_cast<IntOption*>(o)) { kind = "int"; auto g = PI::of(p); lo = std::to_string(g.begin == INT32_MIN ? -INT32_MAX : g.begin); hi = std::to_string(g.end); val = std::to_string((int32_t)*p); }
        else if (auto p = dynamic_cast<DoubleOption*>(o)) { kind = "double"; auto g = PD::of(p); lo = num(g.begin); hi = num(g.end); li = g.begin_inclusive ? "true" : "false"; hinc = g.end_inclusive ? "true" : "false"; val = num((double)*p); }
        else if (auto p = dynamic_cast<StringOption*>(o)) { kind = "string"; val = codes((const char*)*p); }
        else return 98;
        if (t.size() > 1) { t += ","; v += ","; }
        t += "{\"name\":" + codes(Peek::nameOf(o)) + ",\"kind\":\"" + kind + "\",\"lo\":" + lo + ",\"hi\":" + hi + ",\"loinc\":" + li + ",\"hiinc\":" + hinc + "}"; v += val;
    }
    for (int i = 1; i < ac; i++) r += (i > 1 ? "," : "") + codes(av[i]);
    printf("JSON {\"opts\":%s],\"vals\":%s],\"rest\":%s]}\n", t.c_str(), v.c_str(), r.c_str());
    fflush(stdout);
    _Exit(99);
}
