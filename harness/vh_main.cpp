// Event-log harness: reads operations from a file, runs them against the real code, logs each outcome.
// usage: vh OPS LOG [--stats]
#include "vh.hpp"
#include <exception>
#include <fstream>
#include <unistd.h>
#include <fcntl.h>

#if defined(__SANITIZE_ADDRESS__)
#define VH_ASAN 1
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*malloc_hook)(const volatile void*, size_t),
                                                         void (*free_hook)(const volatile void*));
extern "C" size_t __sanitizer_get_allocated_size(const volatile void* p);
#endif

namespace vh {
std::map<std::string, handler>& handlers() {
    static std::map<std::string, handler> h;
    return h;
}
static uint64_t g_total, g_cur, g_peak;
#ifdef VH_ASAN
static void on_malloc(const volatile void* p, size_t n) {
    g_total += n;
    g_cur += n;
    if (g_cur > g_peak && int64_t(g_cur) > 0) g_peak = g_cur;
}
static void on_free(const volatile void* p) {
    if (p) g_cur -= __sanitizer_get_allocated_size(p);
}
#endif
void alloc_reset() { g_total = g_cur = g_peak = 0; }
alloc_stats alloc_get() { return {g_total, g_peak}; }

} // namespace vh

int main(int argc, char** argv) {
    using namespace vh;
    if (argc < 3) return 2;
    bool stats = argc > 3 && !strcmp(argv[3], "--stats");
#ifdef VH_ASAN
    if (stats) __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
#endif
    std::ifstream in(argv[1]);
    int fd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (!in || fd < 0) return 2;
    std::string line, o;
    while (std::getline(in, line)) {
        std::vector<arg> as;
        std::string op = parse(line, as);
        auto it = handlers().find(op);
        if (it == handlers().end()) { fprintf(stderr, "unknown op %s\n", op.c_str()); return 2; }
        if (write(fd, "> ", 2) != 2) return 2; // call event, before the call
        if (stats) alloc_reset();
        try {
            o = it->second(as);
        } catch (const std::exception& e) {
            o = out::err(e.what());
        }
        if (stats) {
            auto s = alloc_get();
            o += " @" + std::to_string(s.total) + ":" + std::to_string(s.peak);
        }
        o += '\n';
        const char* d = o.data();
        size_t n = o.size();
        while (n) {
            ssize_t w = write(fd, d, n);
            if (w <= 0) return 2;
            d += w; n -= w;
        }
    }
    if (write(fd, "END\n", 4) != 4) return 2;
    close(fd);
    return 0;
}
