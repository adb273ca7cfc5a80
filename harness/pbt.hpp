// Property-based testing engine: every generated case is a sequence of integer choices.
// Generators draw choices from a Src; a failing case is shrunk on its choice sequence and the
// shrunk sequence is the replay file.  Draw 0 is always the simplest alternative.
#pragma once
#include <cstdint>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Failure : std::runtime_error { explicit Failure(const std::string& m) : std::runtime_error(m) {} };
struct Discard {};

class Src {
public:
    // random mode
    explicit Src(uint64_t seed) : mState(seed) {}
    // replay mode
    explicit Src(const std::vector<uint64_t>& choices) : mReplay(&choices), mState(0) {}

    // uniform in [0,n]
    uint64_t draw(uint64_t n) {
        uint64_t v;
        if (mReplay) { v = mPos < mReplay->size() ? (*mReplay)[mPos] : 0; if (v > n) v = n; ++mPos; }
        else { v = n == UINT64_MAX ? next() : next() % (n + 1); }
        mRec.push_back(v);
        if (mHook) mHook(mRec);
        return v;
    }
    int    intIn(int lo, int hi) { return lo + (int)draw((uint64_t)(hi - lo)); }
    // a length: mostly in [lo,hi], now and then much longer
    int    len(int lo, int hi, int mult = 20) { return draw(59) == 59 ? intIn(lo, hi * mult) : intIn(lo, hi); }
    bool   flag()               { return draw(1) != 0; }
    // true with probability num/den (0 => false when shrunk)
    bool   chance(int num, int den) { return (int)draw(den - 1) >= den - num; }
    // a real in [lo,hi]; mixes coarse "round" values and fine ones
    double real(double lo, double hi) {
        if (draw(3) == 0) return lo + (hi - lo) * (double)draw(8) / 8.0;
        return lo + (hi - lo) * (double)draw((1u << 30)) / (double)(1u << 30);
    }
    // symmetric real in [-m,m], never of magnitude below m*1e-3 unless zeroAllowed
    double sreal(double m) {
        double a = m * (1.0 + (double)draw(1u << 20)) / (double)((1u << 20) + 1);
        if (a < 1e-3 * m) a = 1e-3 * m;
        return draw(1) ? -a : a;
    }
    // log-uniform magnitude in [lo,hi] (both positive)
    double logreal(double lo, double hi) { return std::exp(std::log(lo) + (std::log(hi) - std::log(lo)) * (double)draw(1u << 24) / (double)(1u << 24)); }
    // the magnitude of a field: mostly ordinary, now and then very small or very large
    double mag(double lo = 1e-3, double hi = 1e3) { return draw(9) == 9 ? (draw(1) ? logreal(hi, hi * 1e9) : logreal(lo * 1e-12, lo)) : logreal(lo, hi); }
    template<class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size() - 1)]; }
    std::vector<double> vec(int n, double m) { std::vector<double> r(n); for (int i = 0; i < n; ++i) { r[i] = sreal(m); auto k = draw(71); if (k == 71) r[i] = 0; else if (k == 70 && i) r[i] = r[i - 1]; else if (k == 69 && i) r[i] = -r[i - 1]; else if (k == 68) r[i] = m; } return r; }

    void nontrivial(bool b = true) { mNontrivial = b; }
    void tag(const std::string& t) { mTags.push_back(t); }
    std::ostringstream desc;

    const std::vector<uint64_t>& rec() const { return mRec; }
    const std::vector<std::string>& tags() const { return mTags; }
    bool isNontrivial() const { return mNontrivial; }
    // a listed, recorded defect was reproduced by this case; anything not listed is a failure
    void known(const std::string& id, const std::string& msg) {
        const char* e = std::getenv("PBT_KNOWN");
        if (!e || (std::string(",") + e + ",").find("," + id + ",") == std::string::npos) throw Failure(msg);
        mKnown.push_back(id);
    }
    const std::vector<std::string>& knownHits() const { return mKnown; }
    std::function<void(const std::vector<uint64_t>&)> mHook;
private:
    uint64_t next() { // splitmix64
        uint64_t z = (mState += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    const std::vector<uint64_t>* mReplay = nullptr;
    size_t mPos = 0;
    uint64_t mState;
    std::vector<uint64_t> mRec;
    bool mNontrivial = false;
    std::vector<std::string> mTags, mKnown;
};

struct Sub { std::string name, rule; int weight; std::function<void(Src&)> fn; };
inline std::vector<Sub>& registry() { static std::vector<Sub> r; return r; }
struct Reg { Reg(const char* n, int w, const char* rule, std::function<void(Src&)> f) { registry().push_back({n, rule, w, f}); } };

// weight = number of cases in one quick unit; rule = what makes a case non-trivial
#define PBT_CAT2(a,b) a##b
#define PBT_CAT(a,b) PBT_CAT2(a,b)
#define PBT(name, weight, rule) \
    static void PBT_CAT(pbt_fn_, __LINE__)(pbt::Src&); \
    static pbt::Reg PBT_CAT(pbt_reg_, __LINE__)(name, weight, rule, PBT_CAT(pbt_fn_, __LINE__)); \
    static void PBT_CAT(pbt_fn_, __LINE__)(pbt::Src& s)

#define REQ(cond, msg) do { if (!(cond)) { std::ostringstream o_; o_.precision(17); o_ << #cond << ": " << msg; throw pbt::Failure(o_.str()); } } while (0)
#define FAIL(msg) do { std::ostringstream o_; o_.precision(17); o_ << msg; throw pbt::Failure(o_.str()); } while (0)
#define DISCARD_IF(c) do { if (c) throw pbt::Discard(); } while (0)

inline bool close(double a, double b, double scale, double tol = 1e-9) {
    if (!std::isfinite(a) || !std::isfinite(b)) return false;
    return std::fabs(a - b) <= tol * scale + 1e-300;
}
// compare got with want; scale is the magnitude of the terms that make up the value
#define NEAR(got, want, scale, msg) do { double g_ = (got), w_ = (want), s_ = (scale); \
    if (!pbt::close(g_, w_, std::fabs(s_) + std::fabs(w_))) { std::ostringstream o_; o_.precision(17); \
    o_ << msg << ": got " << g_ << " want " << w_ << " (scale " << s_ << ") [" #got "]"; throw pbt::Failure(o_.str()); } } while (0)
#define NEARTOL(got, want, scale, tol, msg) do { double g_ = (got), w_ = (want), s_ = (scale); \
    if (!pbt::close(g_, w_, std::fabs(s_) + std::fabs(w_), (tol))) { std::ostringstream o_; o_.precision(17); \
    o_ << msg << ": got " << g_ << " want " << w_ << " (scale " << s_ << ", tol " << (tol) << ") [" #got "]"; throw pbt::Failure(o_.str()); } } while (0)
#define THROWS(expr, msg) do { bool t_ = false; try { expr; } catch (const std::exception& e_) { if (std::strstr(e_.what(), "View bounds error")) throw pbt::Failure(std::string("access outside an array: ") + e_.what()); t_ = true; } \
    if (!t_) { std::ostringstream o_; o_ << msg << ": expected an error, none raised [" #expr "]"; throw pbt::Failure(o_.str()); } } while (0)

int run_main(int argc, char** argv);
} // namespace pbt
