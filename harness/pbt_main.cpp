#include "pbt.hpp"
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <set>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
#include <algorithm>

void pbt_init(int& argc, char**& argv);
void pbt_fini();

namespace pbt {
static std::string jstr(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
static uint64_t fnv(const std::string& s) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return h; }
static uint64_t mix(uint64_t a, uint64_t b) { uint64_t z = a * 0x9e3779b97f4a7c15ULL + b + 0x632be59bd9b4e019ULL; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }

enum Outcome { PASS, DISCARDED, FAILED };
static Outcome runCase(const Sub& sub, Src& s, std::string& msg) {
    try { sub.fn(s); return PASS; }
    catch (const Discard&) { return DISCARDED; }
    catch (const Failure& f) { msg = f.what(); return FAILED; }
    catch (const std::exception& e) { msg = std::string("unexpected exception: ") + e.what(); return FAILED; }
    catch (...) { msg = "unexpected unknown exception"; return FAILED; }
}
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// crash record: sub name + choices so far, in a shared mapping that survives a crash of this process
struct Cur { char name[128]; uint64_t n; uint64_t c[1 << 18]; };
static Cur* cr = nullptr;
static void record(Src& s) { if (cr) { cr->n = 0; s.mHook = [](const std::vector<uint64_t>& rr) { if (rr.size() <= (1 << 18)) { cr->c[rr.size() - 1] = rr.back(); cr->n = rr.size(); } }; } }

static bool fails(const Sub& sub, const std::vector<uint64_t>& c, std::vector<uint64_t>& canon, std::string& msg, std::string& desc) {
    Src s(c); record(s);
    std::string m;
    if (runCase(sub, s, m) != FAILED) return false;
    canon = s.rec(); msg = m; desc = s.desc.str();
    return true;
}
static void shrink(const Sub& sub, std::vector<uint64_t>& best, std::string& msg, std::string& desc, double budget) {
    double t0 = now();
    auto attempt = [&](const std::vector<uint64_t>& c) {
        std::vector<uint64_t> canon; std::string m, d;
        if (!fails(sub, c, canon, m, d)) return false;
        auto key = [](const std::vector<uint64_t>& v) { long double t = 0; for (auto x : v) t += (long double)x; return std::make_pair(v.size(), t); };
        if (key(canon) < key(best)) { best = canon; msg = m; desc = d; return true; }
        return false;
    };
    bool progress = true;
    while (progress && now() - t0 < budget) {
        progress = false;
        for (size_t len : {64, 16, 8, 4, 2, 1})
            for (size_t i = 0; i + len <= best.size() && now() - t0 < budget; ) {
                auto c = best; c.erase(c.begin() + i, c.begin() + i + len);
                if (attempt(c)) progress = true; else ++i;
            }
        for (size_t i = 0; i < best.size() && now() - t0 < budget; ++i) {
            if (best[i] == 0) continue;
            auto c = best; c[i] = 0;
            if (attempt(c)) { progress = true; continue; }
            uint64_t lo = 0, hi = i < best.size() ? best[i] : 0; // binary search towards 0
            while (lo + 1 < hi && i < best.size()) {
                uint64_t mid = lo + (hi - lo) / 2; c = best; c[i] = mid;
                if (attempt(c)) { progress = true; hi = i < best.size() ? best[i] : 0; } else lo = mid;
                if (now() - t0 > budget) break;
            }
        }
    }
}

int run_main(int argc, char** argv) {
    std::string out, replay, cur, only; uint64_t seed = 1; double units = 1, tcap = 1e9; int part = 0, parts = 1; bool list = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&] { return std::string(argv[++i]); };
        if (a == "--out") out = val(); else if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--units") units = atof(val().c_str()); else if (a == "--tcap") tcap = atof(val().c_str());
        else if (a == "--replay") replay = val(); else if (a == "--cur") cur = val(); else if (a == "--only") only = val();
        else if (a == "--part") part = atoi(val().c_str()); else if (a == "--parts") parts = atoi(val().c_str());
        else if (a == "--list") list = true;
    }
    auto& subs = registry();
    std::sort(subs.begin(), subs.end(), [](const Sub& a, const Sub& b) { return a.name < b.name; });
    if (list) { for (auto& s : subs) printf("%s\t%d\t%s\n", s.name.c_str(), s.weight, s.rule.c_str()); return 0; }
    if (!replay.empty()) {
        std::ifstream f(replay); std::string line, name; std::vector<uint64_t> ch;
        while (std::getline(f, line)) {
            if (line.compare(0, 4, "sub ") == 0) name = line.substr(4);
            else if (line.compare(0, 8, "choices ") == 0) { std::istringstream is(line.substr(8)); uint64_t v; while (is >> v) ch.push_back(v); }
        }
        for (auto& sub : subs) if (sub.name == name) {
            Src s(ch); std::string msg; auto o = runCase(sub, s, msg);
            if (o == FAILED) { printf("REPLAY-FAILED %s\n%s\ncase: %s\n", name.c_str(), msg.c_str(), s.desc.str().c_str()); return 1; }
            printf("REPLAY-%s %s\ncase: %s\n", o == PASS ? "PASSED" : "DISCARDED", name.c_str(), s.desc.str().c_str()); return 0;
        }
        printf("REPLAY-UNKNOWN-SUB %s\n", name.c_str()); return 3;
    }
    if (!out.empty() && !freopen("/dev/null", "w", stdout)) return 3; // the code under test prints a lot
    if (!cur.empty()) {
        int fd = open(cur.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0 && ftruncate(fd, sizeof(Cur)) == 0) cr = (Cur*)mmap(0, sizeof(Cur), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (cr == MAP_FAILED) cr = nullptr;
    }
    double t0 = now();
    std::ostringstream js; js << "{\"subs\":[";
    int nfail = 0; bool first = true; std::set<std::string> allKnown;
    struct State { long want = 0, k = 0, evals = 0, discarded = 0, nontriv = 0; std::unordered_set<uint64_t> distinct; std::map<std::string, long> tags; std::vector<std::string> samples; std::string failMsg, failDesc; std::vector<uint64_t> failC; bool failed = false; std::set<std::string> known; double secs = 0; };
    std::vector<State> st(subs.size());
    // rounds over all generators, so that a time limit never starves the later ones
    const double step = 20; int rounds = std::max(1, (int)std::ceil(units / step));
    for (int r = 0; r < rounds && (r == 0 || now() - t0 < tcap); ++r)
    for (size_t q = 0; q < subs.size(); ++q) {
        auto& sub = subs[q]; auto& S = st[q];
        if ((!only.empty() && sub.name != only) || S.failed) continue;
        S.want = std::max(1L, (long)(sub.weight * std::min(units, (r + 1) * step) / parts + 0.5));
        if (cr) { strncpy(cr->name, sub.name.c_str(), 127); cr->n = 0; }
        double ts = now();
        for (; S.k < S.want && (r == 0 || now() - t0 < tcap); ++S.k) {
            Src s(mix(mix(seed, fnv(sub.name)), (uint64_t)S.k * parts + part));
            record(s);
            std::string msg; auto o = runCase(sub, s, msg);
            if (o == DISCARDED) { ++S.discarded; continue; }
            ++S.evals;
            for (auto& t : s.tags()) ++S.tags[t];
            for (auto& t : s.knownHits()) S.known.insert(t);
            if (s.isNontrivial() && S.distinct.size() < 2000000) { // beyond that the count is a lower bound
                uint64_t h = 7; for (auto v : s.rec()) h = mix(h, v);
                if (S.distinct.insert(h).second) ++S.nontriv;
                if (S.samples.size() < 2 && !s.desc.str().empty()) S.samples.push_back(s.desc.str().substr(0, 400));
            }
            if (o == FAILED) { S.failed = true; S.failC = s.rec(); S.failMsg = msg; S.failDesc = s.desc.str(); break; }
        }
        S.secs += now() - ts;
    }
    for (size_t q = 0; q < subs.size(); ++q) {
        auto& sub = subs[q]; auto& S = st[q];
        if (!only.empty() && sub.name != only) continue;
        if (S.failed) { ++nfail; if (cr) strncpy(cr->name, sub.name.c_str(), 127); shrink(sub, S.failC, S.failMsg, S.failDesc, 10.0); }
        for (auto& k : S.known) allKnown.insert(k);
        long evals = S.evals, discarded = S.discarded, nontriv = S.nontriv; auto& tags = S.tags; auto& samples = S.samples; auto& failMsg = S.failMsg; auto& failDesc = S.failDesc; auto& failC = S.failC; bool failed = S.failed;
        js << (first ? "" : ",") << "\n{\"name\":" << jstr(sub.name) << ",\"rule\":" << jstr(sub.rule) << ",\"evals\":" << evals << ",\"discarded\":" << discarded
           << ",\"nontrivial\":" << nontriv << ",\"secs\":" << S.secs << ",\"tags\":{";
        bool ft = true; for (auto& t : tags) { js << (ft ? "" : ",") << jstr(t.first) << ":" << t.second; ft = false; }
        js << "},\"samples\":["; for (size_t i = 0; i < samples.size(); ++i) js << (i ? "," : "") << jstr(samples[i]); js << "]";
        if (failed) {
            js << ",\"fail\":{\"msg\":" << jstr(failMsg) << ",\"desc\":" << jstr(failDesc) << ",\"choices\":[";
            for (size_t i = 0; i < failC.size(); ++i) js << (i ? "," : "") << failC[i];
            js << "]}";
        }
        js << "}"; first = false;
    }
    js << "],\"known\":["; bool fk = true; for (auto& k : allKnown) { js << (fk ? "" : ",") << jstr(k); fk = false; }
    js << "]}\n";
    if (out.empty()) std::cout << js.str(); else { std::ofstream f(out + ".tmp"); f << js.str(); f.close(); rename((out + ".tmp").c_str(), out.c_str()); }
    return nfail ? 1 : 0;
}
} // namespace pbt

int main(int argc, char** argv) {
    pbt_init(argc, argv);
    int rc = pbt::run_main(argc, argv);
    pbt_fini();
    return rc;
}
