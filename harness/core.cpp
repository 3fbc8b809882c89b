#include "core.h"
#include <fstream>
#include <delynoi/config/DelynoiConfig.h>

std::vector<PropDef>& registry() { static std::vector<PropDef> r; return r; }

std::vector<KnownDef>& knowns() { static std::vector<KnownDef> r; return r; }

const StartConfig& startConfig() {
    static const StartConfig k = [] { DelynoiConfig* d = DelynoiConfig::instance(); return StartConfig{d->getDiscretizationGrade(), d->getTolerance(), d->getScale(), d->getPrecision()}; }();
    return k;
}

std::string runCase(const PropDef& p, const uint32_t* d, size_t n, Ctx** keep) {
    startConfig(); DelynoiConfig* cfg = DelynoiConfig::instance();
    cfg->setDiscretizationGrade(12);
    cfg->setTolerance(0.00001);
    cfg->setScale(100000);
    cfg->setPrecision(6);
    Ctx* c = new Ctx(Src(d, n));
    std::string res;
    try { p.fn(*c); }
    catch (const Fail& f) { res = f.msg; if (res.empty()) res = "failed"; }
    catch (const std::exception& e) { res = std::string("unexpected exception from the library: ") + e.what(); }
    catch (...) { res = "unexpected exception of unknown type from the library"; }
    if (keep) *keep = c; else delete c;
    return res;
}

std::string homeDir() { const char* h = getenv("HOME"); return std::string(h ? h : "/nonexistent") + "/"; }

std::string slurp(const std::string& path) {
    std::ifstream f(path, std::ios::binary);
    if (!f.good()) failWith("file was not written: " + path);
    std::ostringstream o; o << f.rdbuf(); return o.str();
}
void spit(const std::string& path, const std::string& text) {
    std::ofstream f(path, std::ios::binary | std::ios::trunc); f << text; f.close();
    if (!f.good()) { fprintf(stderr, "harness: cannot write %s\n", path.c_str()); _Exit(66); }
}
