property = "P27"
needs = "a connection with a receive timeout that expires once, and whose peer closes it afterwards"
what = "the end of the stream is reported as another timeout, because errno is looked at although the read did not fail"
edits = [("src/sys/st/io/sps_sys_st_io_tcp.cpp", '''    error_t nb_read = st_read(stfd, buf, size, rtm);
    if (nb_read <= 0) {
        if (nb_read < 0 && errno == ETIME) {
''', '''    error_t nb_read = st_read(stfd, buf, size, rtm);
    if (nb_read <= 0) {
        if (errno == ETIME) {
''')]
demo = r'''
#include <sps_sys_st_io_tcp.hpp>
#include <sps_sys_co.hpp>
#include <sys/socket.h>
#include <unistd.h>
using namespace sps;
int main() {
    ICoFactory::get_instance().init();
    int p[2];
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) return 3;
    StTcpSocket s(st_netfd_open_socket(p[0]));
    s.set_recv_timeout(20 * 1000);
    char b[8]; size_t n = 0;
    if (s.read(b, 8, n) != ERROR_SOCKET_TIMEOUT) return 1;
    close(p[1]);
    return s.read(b, 8, n) == ERROR_SOCKET_CLOSED ? 0 : 1;
}
'''
