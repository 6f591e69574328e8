// Environment variables (spec/Environment): "set MODE NAME VALUE" and "get MODE NAME" with hexadecimal texts.  Each answer is the
// value the library reads, then the whole environment as the system sees it.
#include "track.hpp"
#include <algorithm>
#include <xme/hal/platform.hpp>
#include <unistd.h>
using namespace vp;
static std::string unhex(const std::string& h) {
    std::string r; if(h == "-") return r;
    for(std::size_t i = 0; i + 1 < h.size(); i += 2) r += char(std::stoi(h.substr(i, 2), nullptr, 16));
    return r;
}
static std::string hex(const std::string& s) { std::string r; char b[3]; for(unsigned char c : s) std::snprintf(b, 3, "%02x", c), r += b; return r.empty() ? "-" : r; }
// the text as a slice of a longer one, as a text of its own, or at the end of memory (no terminator behind it)
struct Text {
    std::string keep; std::unique_ptr<char[]> tight; std::string_view view;
    Text(const std::string& s, int mode) {
        if(mode == 0) keep = s, view = keep;
        else if(mode == 1) keep = "BEFORE=" + s + "AFTER=x", view = std::string_view(keep).substr(7, s.size());
        else if(mode == 2) tight.reset(new char[s.size()]), std::copy(s.begin(), s.end(), tight.get()), view = {tight.get(), s.size()};
        else keep = s + "1", view = std::string_view(keep).substr(0, s.size());
    }
    ~Text() { std::fill(keep.begin(), keep.end(), '!'); }            // nothing may refer to it later
};
static std::string all() {
    std::vector<std::string> v; for(char** e = environ; e && *e; ++e) v.push_back(hex(*e));
    std::sort(v.begin(), v.end()); std::string r; for(auto& s : v) r += " " + s; return r;
}
int main() {
    Script s;
    while(s.next()) {
        if(s.op() == "end") break;
        if(s.op() == "reset") { clearenv(); ::setenv("FOREIGN", "f=1", 1); ::setenv("A", "", 1); ::unsetenv("A"); std::puts("ok"); continue; }
        Text name(unhex(s.tok[2]), s.num(1) % 4);
        if(s.op() == "set") { Text value(unhex(s.tok[3]), s.num(1) / 4); xme::hal::set_environment_variable(name.view, value.view); std::printf("ok%s\n", all().c_str()); }
        else { const char* p = xme::hal::get_environment_variable(name.view); std::printf("%s%s\n", p ? hex(p).c_str() : "none", all().c_str()); }
    }
    std::puts("bye");
}
