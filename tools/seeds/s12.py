property = "P25"
needs = "a 64-bit option whose value does not fit into 32 bits"
what = "64-bit options are read as 32-bit numbers, so a large value silently becomes another one"
edits = [("src/module/sps_module_opt.cpp", '''            int64_t num = len > 0 ? atoll(val) : 0;
''', '''            int64_t num = len > 0 ? atoi(val) : 0;
''')]
demo = r'''
#include <sps_module_opt.hpp>
#include <cstddef>
#include <cstring>
using namespace sps;
struct C { int64_t a; };
int main() {
    ConfigOption o{};
    o.name = "a"; o.offset = offsetof(C, a); o.type = CONF_OPT_TYPE_INT64;
    C c{0};
    const char *v = "5000000000";
    if (o.opt_set(&c, v, (int) strlen(v)) != SUCCESS) return 1;
    return c.a == 5000000000LL ? 0 : 1;
}
'''
