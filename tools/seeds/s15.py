property = "P20"
needs = "a chunked request body that is read with a buffer smaller than its chunk, so that the last read of a chunk asks for more than what is left of it"
what = "the last read of a chunk goes on into the line end and the chunks that follow, so the body has foreign bytes in it"
edits = [("src/module/http/sps_http_socket.cpp", '''    size         = std::min(nb_chunked_left, size);
''', '''    size         = std::min(nb_chunked_size, size);
''')]
demo = r'''
#include <sps_http_socket.hpp>
#include <sps_http_parser.hpp>
#include <cstring>
using namespace sps;
struct Mem : public IReaderWriter {
    std::string d; size_t p = 0;
    void set_recv_timeout(utime_t) override {}
    utime_t get_recv_timeout() override { return 0; }
    void set_send_timeout(utime_t) override {}
    utime_t get_send_timeout() override { return 0; }
    error_t read_fully(void *b, size_t n, ssize_t *r) override {
        if (d.size() - p < n) return -1;
        memcpy(b, d.data() + p, n); p += n; if (r) *r = n; return SUCCESS;
    }
    error_t read(void *b, size_t n, size_t &r) override {
        if (p == d.size()) return -1;
        r = std::min(n, d.size() - p); memcpy(b, d.data() + p, r); p += r; return SUCCESS;
    }
    error_t write(void *, size_t) override { return SUCCESS; }
};
int main() {
    auto m = std::make_shared<Mem>();
    m->d = "a\r\n0123456789\r\n3\r\nabc\r\n0\r\n\r\n";
    HttpRequestSocket s(m, "127.0.0.1", 1, true, -1);
    std::string got;
    for (int i = 0; i < 50; ++i) {
        char b[7]; size_t n = 0;
        if (s.read(b, sizeof(b), n) != SUCCESS) break;
        got.append(b, n);
    }
    return got == "0123456789abc" ? 0 : 1;
}
'''
