property = "P29"
needs = "more than 4000 datagrams read in one session"
what = "the count of queued datagrams is never reduced, so a session loses every datagram after its 4000th"
edits = [("src/sys/st/io/sps_sys_st_io_udp.cpp", '''    buffer_lists.erase(buffer_lists.begin());
    --buffer_list_size;
''', '''    buffer_lists.erase(buffer_lists.begin());
''')]
demo = r'''
#include <sps_sys_st_io_udp.hpp>
#include <sps_sys_co.hpp>
#include <cstring>
using namespace sps;
int main() {
    ICoFactory::get_instance().init();
    PUdpFd fd;
    if (UdpFd::create_fd(0, fd, false, false) != SUCCESS) return 3;
    auto s = std::make_shared<StUdpSessionClientSocket>("127.0.0.1", 1, fd);
    s->set_recv_timeout(1000);
    for (int i = 0; i < 5000; ++i) {
        uint8_t d[3] = {1, (uint8_t) (i >> 8), (uint8_t) i}, b[16];
        size_t n = 0;
        s->push(d, 3);
        if (s->read(b, sizeof(b), n) != SUCCESS || n != 3 || memcmp(b, d, 3) != 0) return 1;
    }
    return 0;
}
'''
