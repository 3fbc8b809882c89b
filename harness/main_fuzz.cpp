// libFuzzer driver: the same properties over the same choice sequences, guided by coverage.
// Environment: FUZZ_PROP (property id), FUZZ_FAIL (where the failing choice sequence is written).
#include "core.h"
#include <unistd.h>
static const PropDef* P; static bool inCase = false;
static void onExit() { if (inCase) { static const char m[] = "\nHARNESS-EXIT: the library called exit() during a case\n"; ssize_t r = write(2, m, sizeof m - 1); (void)r; abort(); } }
extern "C" int LLVMFuzzerInitialize(int*, char***) {
    const char* p = getenv("FUZZ_PROP"); for (auto& q : registry()) if (p && std::string(p) == q.id) P = &q;
    if (!P) { fprintf(stderr, "harness: FUZZ_PROP?\n"); _exit(66); }
    atexit(onExit); return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
    std::vector<uint32_t> v(size / 4); if (!v.empty()) memcpy(v.data(), data, v.size() * 4);
    inCase = true; std::string r = runCase(*P, v.data(), v.size()); inCase = false;
    if (!r.empty()) { fprintf(stderr, "HARNESS-FAIL: %s\n", r.c_str()); abort(); }
    return 0;
}
