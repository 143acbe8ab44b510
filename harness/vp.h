// Small property-based testing engine used by every C++ check in /verif.
//
//  * A case is a sequence of choices (64-bit integers) drawn by the property from a Source.
//    Choice 0 is always the simplest alternative, so shrinking works on the choice sequence itself
//    (delete blocks, zero, halve, decrement) and needs no per-type shrinker.
//  * A replay file is the (shrunken) choice sequence plus the name of the sub-property.
//  * Every (sub-property, shard) runs in a forked child: a crash, sanitizer report, abort or hang of the
//    code under test is an ordinary failing case that is shrunk and replayed like any other.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <functional>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <iomanip>
#include <stdexcept>

namespace vp {

struct Discard {};
struct Failure { std::string msg; };

class Ctx {
public:
    Ctx(uint64_t seed) : rng_(seed) {}
    Ctx(const std::vector<uint64_t> & r) : replay_(true), choices_(r), rng_(1) {}

    // ---- choices
    uint64_t draw(uint64_t n) { // uniform in [0, n)
        if (n <= 1) { return 0; }
        uint64_t v;
        if (replay_) {
            v = pos_ < choices_.size() ? choices_[pos_] : 0;
            if (v >= n) v = n - 1;
        } else {
            v = rng_() % n;
        }
        ++pos_;
        rec_.push_back(v);
        if (rec_.size() > 200000) throw Discard{};
        return v;
    }
    bool flip() { return draw(2) == 1; }
    // integer in [lo,hi], simplest = value closest to 0
    int64_t integer(int64_t lo, int64_t hi) {
        const uint64_t n = static_cast<uint64_t>(hi - lo) + 1;
        const uint64_t k = draw(n);
        if (lo >= 0 || hi <= 0) return lo >= 0 ? lo + (int64_t) k : hi - (int64_t) k;
        // zig-zag around zero while both sides are available
        const int64_t m = std::min(-lo, hi);
        if (k <= (uint64_t) (2 * m)) { int64_t h = (int64_t) ((k + 1) / 2); return (k % 2) ? h : -h; }
        const int64_t rest = (int64_t) k - 2 * m;
        return hi > m ? m + rest : -(m + rest);
    }
    // real in [lo,hi]: half the draws on a coarse lattice (incl. end points), half uniform
    double real(double lo, double hi) {
        const uint64_t kind = draw(4);
        if (kind <= 1) {
            const int64_t steps = 16;
            // lattice value whose simplest member is the lattice point closest to 0
            double best = lo; int64_t bi = 0;
            for (int64_t i = 0; i <= steps; ++i) { double v = lo + (hi - lo) * double(i) / double(steps); if (std::fabs(v) < std::fabs(best)) { best = v; bi = i; } }
            const int64_t k = integer(-bi, steps - bi) + bi;
            return k == steps ? hi : lo + (hi - lo) * double(k) / double(steps);
        }
        const uint64_t m = draw(1ull << 53);
        return lo + (hi - lo) * (double(m) / double(1ull << 53));
    }
    // strictly uniform real (no lattice)
    double uniform(double lo, double hi) { const uint64_t m = draw(1ull << 53); return lo + (hi - lo) * (double(m) / double(1ull << 53)); }
    template <class T> const T & pick(const std::vector<T> & v) { return v[draw(v.size())]; }

    // ---- outcome
    void nontrivial(bool b = true) { nontrivial_ = nontrivial_ || b; }
    void label(const std::string & s) { labels_.insert(s); }
    void discard() { throw Discard{}; }
    // description of the case (only formatted when someone will look at it)
    bool describing = false;
    std::ostringstream desc;
    template <class F> void note(F && f) { if (describing) f(desc); }
    // a violation that may be listed in the known-findings file under this key
    void known(const std::string & key, const std::string & what) { known_[key] = what; }

    const std::vector<uint64_t> & recorded() const { return rec_; }
    bool is_nontrivial() const { return nontrivial_; }
    const std::set<std::string> & labels() const { return labels_; }
    const std::map<std::string, std::string> & known() const { return known_; }
private:
    bool replay_ = false;
    std::vector<uint64_t> choices_, rec_;
    std::size_t pos_ = 0;
    std::mt19937_64 rng_;
    bool nontrivial_ = false;
    std::set<std::string> labels_;
    std::map<std::string, std::string> known_;
};

struct Test {
    std::string name;
    double weight;                       // share of the requested number of cases
    std::function<void(Ctx &)> fn;
    bool once;                           // exhaustive check: run a single case
};
std::vector<Test> & registry();
struct Reg { Reg(const std::string & n, double w, std::function<void(Ctx &)> f, bool once = false) { registry().push_back({n, w, std::move(f), once}); } };

[[noreturn]] inline void fail(const std::string & m) { throw Failure{m}; }

template <class... A> std::string cat(const A &... a) { std::ostringstream s; s << std::setprecision(17); (s << ... << a); return s.str(); }

// lazily formatted check
#define VP_CHECK(cond, ...) do { if (!(cond)) ::vp::fail(::vp::cat(__FILE__ ":", __LINE__, ": ", #cond, " | ", __VA_ARGS__)); } while (0)

inline bool near(double a, double b, double tol) { return std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= tol; }

int main_(int argc, char ** argv);

} // namespace vp
