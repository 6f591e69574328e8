// Library objects (spec/SharedLibrary) over a loader that records its calls.
#include "track.hpp"
#include <cerrno>
#include <dlfcn.h>
#include <optional>
#include <set>
#include <concepts>
#include <string_view>
#include <utility>
#ifdef VP_APPLE                                    // what the header does where the platform says it is Apple's
#    undef __linux__
#    define __APPLE__ 1
#endif
#include <xme/hal/shared_library.hpp>
#ifdef VP_APPLE
static_assert(XME_PLATFORM_APPLE && !XME_PLATFORM_LINUX);
#endif
using namespace vp;
static std::vector<int*> handles;                  // handle n is the address of a cell of its own
static int symbols[8];
static long handle_id(void* h) { for(std::size_t i = 0; i < handles.size(); ++i) if(handles[i] == h) return long(i) + 1; return -1; }
static std::string quote(const char* s) { std::string r = "\""; for(; s && *s; ++s) { if(*s < ' ' || *s > '~' || *s == '"' || *s == '\\') r += "%" + std::to_string((unsigned char)*s); else r += *s; } return r + "\""; }
static const char* lib_names[] = {"libmissing.so", "libone.so", "/opt/lib dir/libtwo.so.2", "libone.so.1"};
static const char* sym_names[] = {"absent", "f", "ff_init"};
static bool real_loader = true;                    // until the histories begin, for the runtime's own use
extern "C" {
void* dlopen(const char* name, int mode) noexcept {
    if(real_loader) return nullptr;
    bool ok = (mode & (RTLD_NOW | RTLD_LAZY)) && name && (std::string(name) == lib_names[1] || std::string(name) == lib_names[2] || std::string(name) == lib_names[3]);
    if(ok) handles.push_back(new int);
    vp::log().line("[\"dlopen\"," + quote(name) + "," + std::to_string(ok ? handles.size() : 0) + "]");
    return ok ? handles.back() : nullptr;
}
int dlclose(void* h) noexcept {
    vp::log().line("[\"dlclose\"," + std::to_string(handle_id(h)) + "]");
    return 0;
}
void* dlsym(void* h, const char* name) noexcept {
    if(real_loader) return nullptr;
    long r = 0; for(int i = 1; i < 3; ++i) if(name && std::string(name) == sym_names[i]) r = i;
    vp::log().line("[\"dlsym\"," + std::to_string(handle_id(h)) + "," + quote(name) + "," + std::to_string(r) + "]");
    return r ? &symbols[r] : nullptr;
}
}
using Lib = xme::hal::SharedLibrary;
static std::optional<Lib> slots[4];
struct Text {                                      // a name as a text of its own, a slice of a longer text or without a terminator
    std::string keep; std::unique_ptr<char[]> tight; std::string_view view;
    Text(const char* n, int mode) {
        std::string s = n;
        if(mode == 0) keep = s, view = keep;
        else if(mode == 1) keep = "dir/" + s + ".old", view = std::string_view(keep).substr(4, s.size());
        else tight.reset(new char[s.size()]), std::copy(s.begin(), s.end(), tight.get()), view = {tight.get(), s.size()};
    }
    ~Text() { std::fill(keep.begin(), keep.end(), '!'); }
};
int main(int, char** argv) {
    vp::log().open(argv[1]);
    real_loader = false;
    static_assert(!std::is_copy_constructible_v<Lib> && !std::is_copy_assignable_v<Lib> && std::is_nothrow_move_constructible_v<Lib> && std::is_nothrow_move_assignable_v<Lib>);
    Script s; long n = 0;
    auto clear = [] { for(auto& x : slots) x.reset(); };
    while(s.next()) {
        const auto& op = s.op();
        if(op == "end") break;
        if(op == "reset") {
            for(int i = 1; i < 4; ++i) if(slots[i]) {
                vp::log().line("[\"call\",\"destroy\"," + std::to_string(i) + ",0,\"\"]"); slots[i].reset();
                std::string f; for(int j = 1; j < 4; ++j) f += (j > 1 ? "," : "") + std::to_string(slots[j] ? int(slots[j]->is_open()) : -1);
                vp::log().line("[\"ret\",0,[" + f + "]]");
            }
            for(auto* h : handles) delete h; handles.clear(); vp::log().line("[\"reset\"]"); std::puts("ok"); continue;
        }
        const int i = s.num(1), j = s.num(2), k = s.num(3);
        const char* nm = op == "sym" ? sym_names[k] : op == "open" || op == "newopen" ? lib_names[k] : "";
        vp::log().line("[\"call\",\"" + op + "\"," + std::to_string(i) + "," + std::to_string(j) + "," + quote(nm) + "]");
        long r = 0;
        {
            Text t(nm, n++ % 3);
            if(op == "new") slots[i].emplace();
            else if(op == "newopen") slots[i].emplace(t.view);
            else if(op == "movector") slots[i].emplace(std::move(*slots[j]));
            else if(op == "massign") *slots[i] = std::move(*slots[j]);
            else if(op == "swap") { using std::swap; swap(*slots[i], *slots[j]); }
            else if(op == "open") slots[i]->open(t.view);
            else if(op == "close") slots[i]->close();
            else if(op == "destroy") slots[i].reset();
            else if(op == "sym") { void* p = n % 2 ? (void*)slots[i]->proc_address<int (*)(int)>(t.view) : (void*)std::as_const(*slots[i]).proc_address<int*>(t.view); r = p ? (int*)p - symbols : 0; }
        }
        std::string f; for(int q = 1; q < 4; ++q) f += (q > 1 ? "," : "") + std::to_string(slots[q] ? int(slots[q]->is_open()) : -1);
        vp::log().line("[\"ret\"," + std::to_string(r) + ",[" + f + "]]");
        std::puts("ok");
    }
    clear();
    vp::log().line("[\"reset\"]");
    vp::log().close();
    std::puts("bye");
    std::fflush(stdout);
    _Exit(0);
}
