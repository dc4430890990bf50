property = "P26"
needs = "a URL that names a query parameter several times, the first time with an empty value"
what = "an empty value is skipped, so the value of a later parameter of the same name is returned"
edits = [("src/io/url/sps_io_url.cpp", '''        if (h.key == key) return h.value;
    }
    return "";
}

bool RequestUrl::is_chunked() {''', '''        if (h.key == key && !h.value.empty()) return h.value;
    }
    return "";
}

bool RequestUrl::is_chunked() {''')]
demo = r'''
#include <sps_io_url.hpp>
using namespace sps;
int main() {
    PRequestUrl r;
    if (RequestUrl::from("http://a.b/c?k=&x=1&k=2", r) != SUCCESS) return 1;
    return r->get_param("k").empty() && r->get_param("x") == "1" ? 0 : 1;
}
'''
