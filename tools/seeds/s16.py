property = "P34"
needs = "coroutines that end while later ones still run, and further ones started after that"
what = "the id of a new coroutine is the number of running ones, so two coroutines that run at the same time can have the same id"
edits = [("src/sys/st/sps_sys_st_co.cpp", '''    static int id;
    ids[st_thread_self()] = id++;
''', '''    int id = (int) ids.size();
    ids[st_thread_self()] = id;
''')]
demo = r'''
#include <sps_sys_st_co.hpp>
#include <sps_sys_co.hpp>
#include <sps_log.hpp>
#include <vector>
#include "public.h"
#include <set>
using namespace sps;
static std::multiset<int> alive; static bool twice = false;
struct H : public ICoHandler {
    int ms; explicit H(int m) : ms(m) {}
    error_t handler() override {
        int i = get_context_id();
        if (alive.count(i)) twice = true;
        auto it = alive.insert(i);
        st_usleep(ms * 1000);
        alive.erase(it);
        return SUCCESS;
    }
};
int main() {
    ICoFactory::get_instance().init();
    std::vector<std::shared_ptr<H>> v;
    for (int ms : {10, 200, 200}) { v.push_back(std::make_shared<H>(ms)); ICoFactory::get_instance().start(v.back()); }
    st_usleep(50000);
    v.push_back(std::make_shared<H>(50)); ICoFactory::get_instance().start(v.back());
    st_usleep(400000);
    return twice ? 1 : 0;
}
'''
