// A miniature, functional stand-in for the parts of the SOFA framework (v21.06 API) that the
// SofaCaribou plugin is written against.  SOFA itself is not installed in the sandbox; this header
// lets the *real* SofaCaribou sources of /repo be compiled and executed.  It reproduces the documented
// behaviour of the SOFA types it stands for (zero-initialised Vec, Data parents pulled lazily, links,
// context look-ups, ForceField/Mapping dispatch to the mechanical state, ...), and nothing of Caribou's.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <typeinfo>
#include <utility>
#include <vector>
#ifdef __GNUG__
#include <cxxabi.h>
#endif

#ifndef SOFA_VERSION
#define SOFA_VERSION 210699
#endif
#define SOFA_EXPORT_DYNAMIC_LIBRARY
#define SOFA_IMPORT_DYNAMIC_LIBRARY
#define SOFA_UNUSED(x) (void)(x)
#define SOFA_CORE_API
typedef double SReal;

namespace sofa {
using Size = unsigned int;
using Index = unsigned int;
using SignedIndex = int;
constexpr Index InvalidID = static_cast<Index>(-1);

// ------------------------------------------------------------------------------------------- types
namespace type {
template <class T, class A = std::allocator<T>> class vector : public std::vector<T, A> {
public:
    using std::vector<T, A>::vector;
    using Base_ = std::vector<T, A>;
    vector() = default;
    vector(const Base_ & v) : Base_(v) {}
};

template <class T, std::size_t N> class fixed_array {
public:
    using value_type = T;
    using size_type = Size;
    using iterator = T *;
    using const_iterator = const T *;
    using reference = T &;
    using const_reference = const T &;
    static constexpr Size static_size = static_cast<Size>(N);
    std::array<T, N> elems {};
    constexpr fixed_array() = default;
    template <class... Ts, typename = std::enable_if_t<sizeof...(Ts) == N && (N > 1) && (std::is_convertible_v<Ts, T> && ...)>>
    constexpr fixed_array(Ts... ts) : elems {static_cast<T>(ts)...} {}
    T * begin() { return elems.data(); }
    T * end() { return elems.data() + N; }
    const T * begin() const { return elems.data(); }
    const T * end() const { return elems.data() + N; }
    const T * cbegin() const { return elems.data(); }
    const T * cend() const { return elems.data() + N; }
    T * data() { return elems.data(); }
    const T * data() const { return elems.data(); }
    T & operator[](std::size_t i) { assert(i < N); return elems[i]; }
    const T & operator[](std::size_t i) const { assert(i < N); return elems[i]; }
    T & at(std::size_t i) { return elems.at(i); }
    const T & at(std::size_t i) const { return elems.at(i); }
    T & front() { return elems[0]; }
    const T & front() const { return elems[0]; }
    T & back() { return elems[N - 1]; }
    const T & back() const { return elems[N - 1]; }
    static constexpr Size size() { return static_cast<Size>(N); }
    static constexpr bool empty() { return N == 0; }
    void assign(const T & v) { elems.fill(v); }
    void fill(const T & v) { elems.fill(v); }
    bool operator==(const fixed_array & o) const { return elems == o.elems; }
    bool operator!=(const fixed_array & o) const { return elems != o.elems; }
    bool operator<(const fixed_array & o) const { return elems < o.elems; }
    friend std::ostream & operator<<(std::ostream & os, const fixed_array & a) {
        for (std::size_t i = 0; i < N; ++i) os << (i ? " " : "") << a.elems[i];
        return os;
    }
};

template <Size N, typename Real_ = double> class Vec : public fixed_array<Real_, N> {
public:
    using Real = Real_;
    using real = Real_;
    using value_type = Real_;
    static constexpr Size total_size = N;
    static constexpr Size spatial_dimensions = N;
    constexpr Vec() : fixed_array<Real_, N>() {}           // zero-initialised, as in SOFA
    template <class R2> explicit Vec(const R2 * p) { for (Size i = 0; i < N; ++i) this->elems[i] = static_cast<Real_>(p[i]); }
    template <class A, typename = std::enable_if_t<std::is_arithmetic_v<A> && N == 1>> explicit Vec(A v) { this->elems[0] = static_cast<Real_>(v); }
    template <class A, class B, typename = std::enable_if_t<std::is_arithmetic_v<A> && std::is_arithmetic_v<B> && N == 2>>
    Vec(A a, B b) { this->elems[0] = static_cast<Real_>(a); this->elems[1] = static_cast<Real_>(b); }
    template <class A, class B, class C, typename = std::enable_if_t<std::is_arithmetic_v<A> && std::is_arithmetic_v<B> && std::is_arithmetic_v<C> && N == 3>>
    Vec(A a, B b, C c) { this->elems[0] = static_cast<Real_>(a); this->elems[1] = static_cast<Real_>(b); this->elems[2] = static_cast<Real_>(c); }
    template <class A, class B, class C, class D, typename = std::enable_if_t<std::is_arithmetic_v<A> && std::is_arithmetic_v<D> && N == 4>>
    Vec(A a, B b, C c, D d) { this->elems[0] = Real_(a); this->elems[1] = Real_(b); this->elems[2] = Real_(c); this->elems[3] = Real_(d); }
    template <class R2> Vec(const Vec<N, R2> & o) { for (Size i = 0; i < N; ++i) this->elems[i] = static_cast<Real_>(o[i]); }
    Real_ * ptr() { return this->elems.data(); }
    const Real_ * ptr() const { return this->elems.data(); }
    Real_ * array() { return this->elems.data(); }
    const Real_ * array() const { return this->elems.data(); }
    Real_ & x() { return this->elems[0]; }
    Real_ & y() { return this->elems[1]; }
    Real_ & z() { return this->elems[2]; }
    const Real_ & x() const { return this->elems[0]; }
    const Real_ & y() const { return this->elems[1]; }
    const Real_ & z() const { return this->elems[2]; }
    template <class A, class B, class C> void set(A a, B b, C c) { (*this)[0] = Real_(a); (*this)[1] = Real_(b); (*this)[2] = Real_(c); }
    Real_ & operator()(Size i) { return (*this)[i]; }
    const Real_ & operator()(Size i) const { return (*this)[i]; }
    void clear() { this->elems.fill(Real_(0)); }
    Real_ norm2() const { Real_ s = 0; for (Size i = 0; i < N; ++i) s += this->elems[i] * this->elems[i]; return s; }
    Real_ norm() const { return std::sqrt(norm2()); }
    Vec operator+(const Vec & o) const { Vec r(*this); r += o; return r; }
    Vec operator-(const Vec & o) const { Vec r(*this); r -= o; return r; }
    Vec operator-() const { Vec r; for (Size i = 0; i < N; ++i) r[i] = -this->elems[i]; return r; }
    Vec & operator+=(const Vec & o) { for (Size i = 0; i < N; ++i) this->elems[i] += o.elems[i]; return *this; }
    Vec & operator-=(const Vec & o) { for (Size i = 0; i < N; ++i) this->elems[i] -= o.elems[i]; return *this; }
    template <class R2, typename = std::enable_if_t<std::is_arithmetic_v<R2>>> Vec operator*(R2 f) const { Vec r(*this); r *= f; return r; }
    template <class R2, typename = std::enable_if_t<std::is_arithmetic_v<R2>>> Vec operator/(R2 f) const { Vec r(*this); r /= f; return r; }
    template <class R2, typename = std::enable_if_t<std::is_arithmetic_v<R2>>> Vec & operator*=(R2 f) { for (auto & e : this->elems) e *= Real_(f); return *this; }
    template <class R2, typename = std::enable_if_t<std::is_arithmetic_v<R2>>> Vec & operator/=(R2 f) { for (auto & e : this->elems) e /= Real_(f); return *this; }
    Real_ operator*(const Vec & o) const { Real_ s = 0; for (Size i = 0; i < N; ++i) s += this->elems[i] * o.elems[i]; return s; }
    template <class R2, typename = std::enable_if_t<std::is_arithmetic_v<R2>>> friend Vec operator*(R2 f, const Vec & v) { return v * f; }
    Vec cross(const Vec & b) const { return Vec((*this)[1]*b[2]-(*this)[2]*b[1], (*this)[2]*b[0]-(*this)[0]*b[2], (*this)[0]*b[1]-(*this)[1]*b[0]); }
    Vec linearProduct(const Vec & o) const { Vec r; for (Size i = 0; i < N; ++i) r[i] = this->elems[i] * o.elems[i]; return r; }
    bool normalize() { auto n = norm(); if (n > 0) { *this /= n; return true; } return false; }
    Vec normalized() const { Vec r(*this); r.normalize(); return r; }
};
template <class R> R dot(const Vec<3, R> & a, const Vec<3, R> & b) { return a * b; }
template <class R> Vec<3, R> cross(const Vec<3, R> & a, const Vec<3, R> & b) { return a.cross(b); }

template <Size L, Size C, typename real_ = double> class Mat {
public:
    using Real = real_;
    using real = real_;
    using Line = Vec<C, real_>;
    static constexpr Size nbLines = L;
    static constexpr Size nbCols = C;
    std::array<Line, L> lines {};
    Mat() = default;
    template <class R2> explicit Mat(const Mat<L, C, R2> & o) { for (Size i = 0; i < L; ++i) for (Size j = 0; j < C; ++j) lines[i][j] = real_(o[i][j]); }
    Mat(const Line & a, const Line & b, const Line & c) { static_assert(L == 3, "three lines"); lines[0] = a; lines[1] = b; lines[2] = c; }
    Line & operator[](Size i) { assert(i < L); return lines[i]; }
    const Line & operator[](Size i) const { assert(i < L); return lines[i]; }
    real_ & operator()(Size i, Size j) { assert(i < L && j < C); return lines[i][j]; }
    const real_ & operator()(Size i, Size j) const { assert(i < L && j < C); return lines[i][j]; }
    real_ * ptr() { return lines[0].ptr(); }
    const real_ * ptr() const { return lines[0].ptr(); }
    static constexpr Size getNbLines() { return L; }
    static constexpr Size getNbCols() { return C; }
    void clear() { for (auto & l : lines) l.clear(); }
    void fill(real_ v) { for (auto & l : lines) for (auto & e : l) e = v; }
    void identity() { clear(); for (Size i = 0; i < L; ++i) lines[i][i] = 1; }
    static Mat Identity() { Mat m; m.identity(); return m; }
    Mat<C, L, real_> transposed() const { Mat<C, L, real_> r; for (Size i = 0; i < L; ++i) for (Size j = 0; j < C; ++j) r(j, i) = lines[i][j]; return r; }
    template <Size P> Mat<L, P, real_> operator*(const Mat<C, P, real_> & o) const {
        Mat<L, P, real_> r;
        for (Size i = 0; i < L; ++i) for (Size j = 0; j < P; ++j) { real_ s = 0; for (Size k = 0; k < C; ++k) s += lines[i][k] * o(k, j); r(i, j) = s; }
        return r;
    }
    Vec<L, real_> operator*(const Vec<C, real_> & v) const { Vec<L, real_> r; for (Size i = 0; i < L; ++i) r[i] = lines[i] * v; return r; }
    Mat operator*(real_ f) const { Mat r(*this); for (auto & l : r.lines) l *= f; return r; }
    friend Mat operator*(real_ f, const Mat & m) { return m * f; }
    Mat operator+(const Mat & o) const { Mat r(*this); for (Size i = 0; i < L; ++i) r.lines[i] += o.lines[i]; return r; }
    Mat operator-(const Mat & o) const { Mat r(*this); for (Size i = 0; i < L; ++i) r.lines[i] -= o.lines[i]; return r; }
    Mat operator-() const { return *this * real_(-1); }
    Mat & operator+=(const Mat & o) { *this = *this + o; return *this; }
    Mat & operator-=(const Mat & o) { *this = *this - o; return *this; }
    Mat & operator*=(real_ f) { *this = *this * f; return *this; }
};
using Mat2x2 = Mat<2, 2, SReal>;
using Mat3x3 = Mat<3, 3, SReal>;
using Mat2x2d = Mat<2, 2, double>;
using Mat2x2f = Mat<2, 2, float>;
using Mat3x3d = Mat<3, 3, double>;
using Mat3x3f = Mat<3, 3, float>;
using Vec1d = Vec<1, double>;
using Vec2d = Vec<2, double>;
using Vec3d = Vec<3, double>;
using Vec3f = Vec<3, float>;
using Vec3 = Vec<3, SReal>;
using Vec2 = Vec<2, SReal>;
using Vector1 = Vec<1, SReal>;
using Vector2 = Vec<2, SReal>;
using Vector3 = Vec<3, SReal>;

class RGBAColor : public fixed_array<float, 4> {
public:
    RGBAColor() = default;
    RGBAColor(float r, float g, float b, float a) : fixed_array<float, 4>(r, g, b, a) {}
    float r() const { return (*this)[0]; }
    float g() const { return (*this)[1]; }
    float b() const { return (*this)[2]; }
    float a() const { return (*this)[3]; }
    static RGBAColor black() { return {0, 0, 0, 1}; }
    static RGBAColor red() { return {1, 0, 0, 1}; }
    static RGBAColor green() { return {0, 1, 0, 1}; }
    static RGBAColor blue() { return {0, 0, 1, 1}; }
    static RGBAColor white() { return {1, 1, 1, 1}; }
    static RGBAColor gray() { return {.5f, .5f, .5f, 1}; }
    static RGBAColor yellow() { return {1, 1, 0, 1}; }
};
template <typename R> class TBoundingBox {
public:
    Vec<3, R> lo, hi;
    TBoundingBox() { for (Size i = 0; i < 3; ++i) { lo[i] = std::numeric_limits<R>::max(); hi[i] = std::numeric_limits<R>::lowest(); } }
    TBoundingBox(const R * a, const R * b) : lo(a), hi(b) {}
    TBoundingBox(const Vec<3, R> & a, const Vec<3, R> & b) : lo(a), hi(b) {}
    const Vec<3, R> & minBBox() const { return lo; }
    const Vec<3, R> & maxBBox() const { return hi; }
    void include(const Vec<3, R> & p) { for (Size i = 0; i < 3; ++i) { lo[i] = std::min(lo[i], p[i]); hi[i] = std::max(hi[i], p[i]); } }
};
using BoundingBox = TBoundingBox<SReal>;
} // namespace type

namespace helper {
template <class T> using vector = type::vector<T>;
template <class T, std::size_t N> using fixed_array = type::fixed_array<T, N>;
namespace types { using RGBAColor = type::RGBAColor; }

class OptionsGroup {
    std::vector<std::string> p_names;
    unsigned int p_selected = 0;
public:
    OptionsGroup() = default;
    explicit OptionsGroup(const std::vector<std::string> & n) : p_names(n) {}
    OptionsGroup(std::initializer_list<std::string> n) : p_names(n) {}
    template <class... S> OptionsGroup(int, S... s) : p_names {std::string(s)...} {}
    unsigned int getSelectedId() const { return p_selected; }
    const std::string & getSelectedItem() const { return p_names.at(p_selected); }
    void setSelectedItem(unsigned int i) { if (i < p_names.size()) p_selected = i; }
    void setSelectedItem(const std::string & n) { for (unsigned int i = 0; i < p_names.size(); ++i) if (p_names[i] == n) p_selected = i; }
    int isInOptionsList(const std::string & n) const { for (unsigned int i = 0; i < p_names.size(); ++i) if (p_names[i] == n) return static_cast<int>(i); return -1; }
    std::size_t size() const { return p_names.size(); }
    const std::string & operator[](std::size_t i) const { return p_names.at(i); }
    std::string operator*() const { return getSelectedItem(); }
    friend std::ostream & operator<<(std::ostream & os, const OptionsGroup & o) { return os << (o.p_names.empty() ? std::string() : o.getSelectedItem()); }
};

class AdvancedTimer {
public:
    template <class... A> static void stepBegin(A &&...) {}
    template <class... A> static void stepEnd(A &&...) {}
    template <class... A> static void stepNext(A &&...) {}
    template <class... A> static void step(A &&...) {}
    static void valSet(const char *, double) {}
    static void valAdd(const char *, double) {}
    static void begin(const char *) {}
    static void end(const char *) {}
    static bool isEnabled(const char *) { return false; }
};
class ScopedAdvancedTimer {
public:
    template <class... A> explicit ScopedAdvancedTimer(A &&...) {}
    ~ScopedAdvancedTimer() {}
};
} // namespace helper

// ------------------------------------------------------------------------------------------ logging
namespace stub {
struct Log {                              // messages emitted by components since the last reset
    std::vector<std::string> errors, warnings, infos;
    static Log & get() { static Log l; return l; }
    void reset() { errors.clear(); warnings.clear(); infos.clear(); }
};
class Msg {
    int kind;
    bool on;
    std::ostringstream os;
public:
    Msg(int k, bool enabled = true) : kind(k), on(enabled) {}
    Msg(const Msg &) = delete;
    ~Msg() {
        if (!on || kind == 0) return;
        auto & l = Log::get();
        if (kind == 2) l.errors.push_back(os.str()); else if (kind == 1) l.warnings.push_back(os.str());
        else l.infos.push_back(os.str());
    }
    template <class T> Msg & operator<<(const T & v) { if (on) os << v; return *this; }
    Msg & operator<<(std::ostream & (*f)(std::ostream &)) { if (on) os << f; return *this; }
    Msg & operator<<(std::ios_base & (*f)(std::ios_base &)) { if (on) os << f; return *this; }
};
inline Msg make_msg(int k, bool on = true) { return Msg(k, on); }
template <class... A> inline Msg make_msg2(int k, A &&...) { return Msg(k); }
inline std::string demangle(const char * n) {
    int st = 0; char * s = abi::__cxa_demangle(n, nullptr, nullptr, &st);
    std::string r = st == 0 ? s : n; std::free(s); return r;
}
} // namespace stub
#define msg_info(...) if (true) {} else ::sofa::stub::make_msg(0) /* muted, as without printLog */
#define msg_warning(...) ::sofa::stub::make_msg(1)
#define msg_error(...) ::sofa::stub::make_msg(2)
#define msg_fatal(...) ::sofa::stub::make_msg(2)
#define msg_deprecated(...) ::sofa::stub::make_msg(1)
#define msg_advice(...) ::sofa::stub::make_msg(0)
#define dmsg_info(...) if (true) {} else ::sofa::stub::make_msg(0)
#define dmsg_warning(...) ::sofa::stub::make_msg(1)
#define dmsg_error(...) ::sofa::stub::make_msg(2)
#define SOFA_DECL_CLASS(n) extern "C" {}
#define SOFA_FILE_INFO 0
#define msg_info_when(c, ...) ::sofa::stub::make_msg(0, (c))
#define msg_warning_when(c, ...) ::sofa::stub::make_msg(1, (c))
#define msg_error_when(c, ...) ::sofa::stub::make_msg(2, (c))

namespace helper { namespace logging {
struct ComponentInfo { typedef std::shared_ptr<ComponentInfo> SPtr; std::string name; explicit ComponentInfo(const std::string & n = "") : name(n) {} };
struct Message { enum Type { Info, Advice, Deprecated, Warning, Error, Fatal }; enum Class { Dev, Runtime, Log }; };
struct MessageDispatcher {
    template <class... A> static stub::Msg info(A &&...) { return stub::Msg(0); }
    template <class... A> static stub::Msg warning(A &&...) { return stub::Msg(1); }
    template <class... A> static stub::Msg error(A &&...) { return stub::Msg(2); }
};
}} // namespace helper::logging

namespace core {
// --------------------------------------------------------------------------------------- smart ptr
template <class T> class sptr {
    T * p = nullptr;
    template <class U> friend class sptr;
public:
    using element_type = T;
    sptr() = default;
    sptr(std::nullptr_t) {}
    sptr(T * q, bool add = true) : p(q) { if (p && add) p->stub_ref(); }
    sptr(const sptr & o) : p(o.p) { if (p) p->stub_ref(); }
    sptr(sptr && o) noexcept : p(o.p) { o.p = nullptr; }
    template <class U, typename = std::enable_if_t<std::is_convertible_v<U *, T *>>> sptr(const sptr<U> & o) : p(o.p) { if (p) p->stub_ref(); }
    ~sptr() { if (p) p->stub_unref(); }
    sptr & operator=(sptr o) noexcept { std::swap(p, o.p); return *this; }
    T * get() const { return p; }
    T * operator->() const { assert(p); return p; }
    T & operator*() const { return *p; }
    explicit operator bool() const { return p != nullptr; }
    bool operator!() const { return p == nullptr; }
    void reset() { *this = sptr(); }
    void reset(T * q) { *this = sptr(q); }
    friend bool operator==(const sptr & a, const sptr & b) { return a.p == b.p; }
    friend bool operator!=(const sptr & a, const sptr & b) { return a.p != b.p; }
    friend bool operator==(const sptr & a, const T * b) { return a.p == b; }
    friend bool operator!=(const sptr & a, const T * b) { return a.p != b; }
    friend bool operator==(const sptr & a, std::nullptr_t) { return !a.p; }
    friend bool operator!=(const sptr & a, std::nullptr_t) { return a.p; }
    friend bool operator<(const sptr & a, const sptr & b) { return a.p < b.p; }
};

class ExecParams {
public:
    static ExecParams * defaultInstance() { static ExecParams p; return &p; }
    virtual ~ExecParams() = default;
};

namespace visual { class VisualParams; }
namespace objectmodel {
class Base;
class BaseObject;
class BaseContext;

// ------------------------------------------------------------------------------------------- Data
class BaseData {
public:
    struct BaseInitData { Base * owner = nullptr; std::string name, help; bool displayed = true, readonly = false; BaseData * data = nullptr; };
    explicit BaseData(const BaseInitData & i);
    BaseData(const std::string & help, bool, bool) : p_help(help) {}
    BaseData(const BaseData &) = delete;
    BaseData & operator=(const BaseData &) = delete;
    virtual ~BaseData() { for (auto * c : p_children) c->p_parent = nullptr; if (p_parent) p_parent->drop_child(this); }
    const std::string & getName() const { return p_name; }
    void setName(const std::string & n) { p_name = n; }
    const std::string & getHelp() const { return p_help; }
    bool isSet() const { return p_set; }
    void unset() { p_set = false; }
    int getCounter() const { pull(); return p_counter; }
    Base * getOwner() const { return p_owner; }
    std::string getLinkPath() const { return "@" + p_name; }
    BaseData * getParent() const { return p_parent; }
    bool setParent(BaseData * parent, const std::string & = {}) {
        if (p_parent) p_parent->drop_child(this);
        p_parent = parent; p_seen = -1;
        if (parent) {
            if (!accepts(parent)) { p_parent = nullptr; return false; }
            parent->p_children.push_back(this); p_set = true; pull();
        }
        return true;
    }
    virtual bool copyValueFrom(const BaseData *) = 0;
    virtual bool accepts(const BaseData *) const = 0;
    virtual void setDisplayed(bool) {}
    virtual void setReadOnly(bool) {}
    virtual void setGroup(const std::string &) {}
    virtual void setRequired(bool) {}
    void updateIfDirty() const { pull(); }
protected:
    void pull() const {
        if (p_parent && !p_pulling) {
            auto * self = const_cast<BaseData *>(this);
            p_parent->pull();
            if (p_parent->p_counter != p_seen) { p_pulling = true; self->copyValueFrom(p_parent); self->p_seen = p_parent->p_counter; self->p_counter++; p_pulling = false; }
        }
    }
    void drop_child(BaseData * c) { p_children.erase(std::remove(p_children.begin(), p_children.end(), c), p_children.end()); }
    std::string p_name, p_help;
    Base * p_owner = nullptr;
    BaseData * p_parent = nullptr;
    std::vector<BaseData *> p_children;
    bool p_set = false;
    mutable bool p_pulling = false;
    int p_counter = 0, p_seen = -1;
};

template <class T = void *> class Data : public BaseData {
    T p_value {};
public:
    using value_type = T;
    struct InitData : BaseInitData { T value {}; bool has = false; };
    explicit Data(const BaseInitData & i) : BaseData(i) {}
    Data(const InitData & i) : BaseData(static_cast<const BaseInitData &>(i)), p_value(i.value) {}
    explicit Data(const std::string & help = "", bool d = true, bool r = false) : BaseData(help, d, r) {}
    Data(const T & v, const std::string & help, bool d = true, bool r = false) : BaseData(help, d, r), p_value(v) {}
    const T & getValue() const { pull(); return p_value; }
    const T & getValue(const ExecParams *) const { return getValue(); }
    void setValue(const T & v) { p_value = v; touch(); }
    void setValue(const ExecParams *, const T & v) { setValue(v); }
    T * beginEdit() { pull(); p_counter++; p_set = true; return &p_value; }
    T * beginEdit(const ExecParams *) { return beginEdit(); }
    T * beginWriteOnly() { p_counter++; p_set = true; return &p_value; }
    void endEdit() {}
    void endEdit(const ExecParams *) {}
    Data & operator=(const T & v) { setValue(v); return *this; }
    bool copyValueFrom(const BaseData * o) override { auto * d = dynamic_cast<const Data<T> *>(o); if (!d) return false; p_value = d->p_value; return true; }
    bool accepts(const BaseData * o) const override { return dynamic_cast<const Data<T> *>(o) != nullptr; }
    operator const T & () const { return getValue(); }
private:
    void touch() { p_counter++; p_set = true; }
};

// ------------------------------------------------------------------------------------------- links
class BaseLink {
public:
    enum LinkFlagsEnum { FLAG_NONE = 0, FLAG_MULTILINK = 1, FLAG_STRONGLINK = 2, FLAG_DOUBLELINK = 4, FLAG_DUPLICATE = 8, FLAG_STOREPATH = 16 };
    struct InitLinkBase { Base * owner = nullptr; std::string name, help; };
    explicit BaseLink(const InitLinkBase & i);
    virtual ~BaseLink() = default;
    BaseLink(const BaseLink &) = delete;
    const std::string & getName() const { return p_name; }
    virtual bool setTarget(Base * b) = 0;
    virtual Base * getTarget() const = 0;
protected:
    std::string p_name, p_help;
};
template <class Owner> using InitLink = BaseLink::InitLinkBase;

template <class Owner, class Dest, unsigned Flags> class SingleLink : public BaseLink {
    sptr<Dest> p_strong;
public:
    using InitLink = BaseLink::InitLinkBase;
    explicit SingleLink(const BaseLink::InitLinkBase & i) : BaseLink(i) {}
    void set(Dest * d) { p_strong = sptr<Dest>(d); }
    void set(const sptr<Dest> & d) { p_strong = d; }
    void reset() { p_strong.reset(); }
    Dest * get() const { return p_strong.get(); }
    bool empty() const { return !p_strong; }
    std::size_t size() const { return p_strong ? 1 : 0; }
    Dest * operator->() const { return p_strong.get(); }
    Dest & operator*() const { return *p_strong; }
    operator Dest * () const { return p_strong.get(); }
    SingleLink & operator=(Dest * d) { set(d); return *this; }
    bool setTarget(Base * b) override;
    Base * getTarget() const override;
    void setPath(const std::string &) {}
    std::string getPath() const { return {}; }
    std::string getLinkedPath(std::size_t = 0) const { return {}; }
};

// ------------------------------------------------------------------------------------------- Base
struct BaseClass { std::string typeName, className, templateName, namespaceName; };

class Base {
    std::atomic<int> p_refs {0};
    std::map<std::string, BaseData *> p_data;
    std::map<std::string, BaseLink *> p_links;
    std::string p_name;
public:
    Base() = default;
    Base(const Base &) = delete;
    Base & operator=(const Base &) = delete;
    virtual ~Base() = default;
    void stub_ref() { ++p_refs; }
    void stub_unref() { if (--p_refs == 0) delete this; }
    const std::string & getName() const { return p_name; }
    void setName(const std::string & n) { p_name = n; }
    virtual std::string getTemplateName() const { return ""; }
    virtual std::string getClassName() const { return stub::demangle(typeid(*this).name()); }
    virtual std::string getPathName() const { return "/" + p_name; }
    void stub_add(BaseData * d) { p_data[d->getName()] = d; }
    void stub_add(BaseLink * l) { p_links[l->getName()] = l; }
    void addData(BaseData * d, const std::string & n) { d->setName(n); p_data[n] = d; }
    BaseData * findData(const std::string & n) const { auto it = p_data.find(n); return it == p_data.end() ? nullptr : it->second; }
    BaseLink * findLink(const std::string & n) const { auto it = p_links.find(n); return it == p_links.end() ? nullptr : it->second; }
    void addAlias(BaseData * d, const char * n) { p_data[n] = d; }
protected:
    template <class T> BaseData::BaseInitData stub_init(Data<T> * f, const char * n, const char * h, bool d, bool r) {
        BaseData::BaseInitData i; i.owner = this; i.name = n; i.help = h; i.displayed = d; i.readonly = r; i.data = f; return i;
    }
public:
    template <class T> BaseData::BaseInitData initData(Data<T> * f, const char * n, const char * h, bool d = true, bool r = false) { return stub_init(f, n, h, d, r); }
    template <class T> typename Data<T>::InitData initData(Data<T> * f, const typename Data<T>::value_type & v, const char * n, const char * h, bool d = true, bool r = false) {
        typename Data<T>::InitData i; static_cast<BaseData::BaseInitData &>(i) = stub_init(f, n, h, d, r); i.value = v; i.has = true; return i;
    }
    BaseLink::InitLinkBase initLink(const char * n, const char * h) { BaseLink::InitLinkBase i; i.owner = this; i.name = n; i.help = h; return i; }
    template <class T> static std::string className(const T * = nullptr) { return stub::demangle(typeid(T).name()); }
};
inline BaseData::BaseData(const BaseInitData & i) : p_name(i.name), p_help(i.help), p_owner(i.owner) { if (p_owner) p_owner->stub_add(this); }
inline BaseLink::BaseLink(const InitLinkBase & i) : p_name(i.name), p_help(i.help) { if (i.owner) i.owner->stub_add(this); }
template <class O, class D, unsigned F> bool SingleLink<O, D, F>::setTarget(Base * b) { auto * d = dynamic_cast<D *>(b); if (b && !d) return false; set(d); return true; }
template <class O, class D, unsigned F> Base * SingleLink<O, D, F>::getTarget() const { return p_strong ? dynamic_cast<Base *>(p_strong.get()) : nullptr; }

template <class T> class New : public sptr<T> {
public:
    template <class... A> explicit New(A &&... a) : sptr<T>(new T(std::forward<A>(a)...)) {}
};

#define SOFA_STUB_CLASS_COMMON \
    typedef ::sofa::core::sptr<MyType> SPtr; \
    template <class> friend class ::sofa::core::objectmodel::New; \
    static const ::sofa::core::objectmodel::BaseClass * GetClass() { static ::sofa::core::objectmodel::BaseClass c {::sofa::stub::demangle(typeid(MyType).name()), ::sofa::stub::demangle(typeid(MyType).name()), "", ""}; return &c; } \
    template <class SOFA_T> ::sofa::core::objectmodel::BaseData::BaseInitData initData(::sofa::core::objectmodel::Data<SOFA_T> * f, const char * n, const char * h, bool d = true, bool r = false) { return ::sofa::core::objectmodel::Base::initData(f, n, h, d, r); } \
    template <class SOFA_T> typename ::sofa::core::objectmodel::Data<SOFA_T>::InitData initData(::sofa::core::objectmodel::Data<SOFA_T> * f, const typename ::sofa::core::objectmodel::Data<SOFA_T>::value_type & v, const char * n, const char * h, bool d = true, bool r = false) { return ::sofa::core::objectmodel::Base::initData(f, v, n, h, d, r); } \
    ::sofa::core::objectmodel::BaseLink::InitLinkBase initLink(const char * n, const char * h) { return ::sofa::core::objectmodel::Base::initLink(n, h); }
#define SOFA_CLASS(T, Parent) typedef T MyType; typedef Parent Inherit1; SOFA_STUB_CLASS_COMMON using sofa_stub_eat_semicolon = void
#define SOFA_CLASS2(T, P1, P2) typedef T MyType; typedef P1 Inherit1; typedef P2 Inherit2; SOFA_STUB_CLASS_COMMON using sofa_stub_eat_semicolon = void
#define SOFA_ABSTRACT_CLASS(T, Parent) typedef T MyType; typedef Parent Inherit1; SOFA_STUB_CLASS_COMMON using sofa_stub_eat_semicolon = void
#define SOFA_ABSTRACT_CLASS2(T, P1, P2) typedef T MyType; typedef P1 Inherit1; typedef P2 Inherit2; SOFA_STUB_CLASS_COMMON using sofa_stub_eat_semicolon = void
#define SOFA_TEMPLATE(C, A) C<A>
#define SOFA_TEMPLATE2(C, A, B) C<A, B>

class BaseObjectDescription {
    std::map<std::string, std::string> p_attr;
    std::string p_name;
public:
    std::vector<std::string> errors;
    explicit BaseObjectDescription(const char * name = nullptr, const char * type = nullptr) { if (name) p_attr["name"] = name; if (type) p_attr["type"] = type; }
    virtual ~BaseObjectDescription() = default;
    virtual const char * getAttribute(const std::string & n, const char * def = nullptr) const { auto it = p_attr.find(n); return it == p_attr.end() ? def : it->second.c_str(); }
    virtual void setAttribute(const std::string & n, const std::string & v) { p_attr[n] = v; }
    virtual void logError(const std::string & s) { errors.push_back(s); }
    virtual void logWarning(const std::string &) {}
    std::string getName() const { return getAttribute("name", ""); }
};

class Event { public: virtual ~Event() = default; virtual const char * getClassName() const { return "Event"; } };

class BaseObject : public virtual Base {
public:
    SOFA_CLASS(BaseObject, Base);
    Data<bool> f_listening, f_printLog;
    Data<type::BoundingBox> f_bbox;
    BaseObject()
    : f_listening(Base::initData(&f_listening, false, "listening", "")), f_printLog(Base::initData(&f_printLog, false, "printLog", "")),
      f_bbox(Base::initData(&f_bbox, "bbox", "")) {}
    virtual void init() {}
    virtual void bwdInit() {}
    virtual void reinit() {}
    virtual void reset() {}
    virtual void cleanup() {}
    virtual void storeResetState() {}
    virtual void handleEvent(Event *) {}
    virtual void draw(const visual::VisualParams *) {}
    virtual void computeBBox(const ExecParams *, bool) {}
    const BaseContext * getContext() const { return p_context; }
    BaseContext * getContext() { return p_context; }
    void stub_set_context(BaseContext * c) { p_context = c; }
    std::string getPathName() const override;
    bool notMuted() const { return false; }
    template <class T> static bool canCreate(T * , BaseContext *, BaseObjectDescription *) { return true; }
private:
    BaseContext * p_context = nullptr;
};
} // namespace objectmodel
} // namespace core
template <class T> using Data = core::objectmodel::Data<T>;
} // namespace sofa

namespace sofa {
// -------------------------------------------------------------------------------------- accessors
namespace helper {
template <class T, class = void> struct stub_is_container : std::false_type {};
template <class T> struct stub_is_container<T, std::void_t<decltype(std::declval<T &>().begin()), typename T::value_type, decltype(std::declval<T &>().resize(1))>> : std::true_type {};

template <class T> class ReadAccessor;
template <class T> class WriteAccessor;
template <class T> class WriteOnlyAccessor;
template <class T> class ReadAccessor<core::objectmodel::Data<T>> {
    const T * p;
public:
    using container_type = T;
    using const_reference = const T &;
    ReadAccessor(const core::objectmodel::Data<T> & d) : p(&d.getValue()) {}
    ReadAccessor(const core::objectmodel::Data<T> * d) : p(&d->getValue()) {}
    ReadAccessor(const core::ExecParams *, const core::objectmodel::Data<T> & d) : p(&d.getValue()) {}
    const T & ref() const { return *p; }
    const T & wref() const { return *p; }
    const T * operator->() const { return p; }
    const T & operator*() const { return *p; }
    operator const T & () const { return *p; }
    template <class U = T> auto size() const -> decltype(std::declval<const U &>().size()) { return p->size(); }
    template <class U = T> bool empty() const { return p->empty(); }
    template <class U = T> auto operator[](std::size_t i) const -> decltype(std::declval<const U &>()[i]) { assert(i < p->size()); return (*p)[i]; }
    template <class U = T> auto begin() const -> decltype(std::declval<const U &>().begin()) { return p->begin(); }
    template <class U = T> auto end() const -> decltype(std::declval<const U &>().end()) { return p->end(); }
};
template <class T> class WriteAccessor<core::objectmodel::Data<T>> {
protected:
    T * p;
    struct WO {};
    WriteAccessor(core::objectmodel::Data<T> & d, WO) : p(d.beginWriteOnly()) {}
public:
    using container_type = T;
    WriteAccessor(core::objectmodel::Data<T> & d) : p(d.beginEdit()) {}
    WriteAccessor(core::objectmodel::Data<T> * d) : p(d->beginEdit()) {}
    WriteAccessor(const core::ExecParams *, core::objectmodel::Data<T> & d) : p(d.beginEdit()) {}
    T & ref() { return *p; }
    T & wref() { return *p; }
    const T & ref() const { return *p; }
    T * operator->() { return p; }
    T & operator*() { return *p; }
    operator T & () { return *p; }
    operator const T & () const { return *p; }
    template <class U, typename = std::enable_if_t<std::is_assignable_v<T &, const U &>>> WriteAccessor & operator=(const U & v) { *p = v; return *this; }
    template <class U = T> auto size() const -> decltype(std::declval<const U &>().size()) { return p->size(); }
    template <class U = T> bool empty() const { return p->empty(); }
    template <class U = T> auto operator[](std::size_t i) -> decltype(std::declval<U &>()[i]) { assert(i < p->size()); return (*p)[i]; }
    template <class U = T> auto operator[](std::size_t i) const -> decltype(std::declval<const U &>()[i]) { assert(i < p->size()); return (*p)[i]; }
    template <class U = T> auto begin() -> decltype(std::declval<U &>().begin()) { return p->begin(); }
    template <class U = T> auto end() -> decltype(std::declval<U &>().end()) { return p->end(); }
    void resize(std::size_t n) { p->resize(n); }
    template <class V> void resize(std::size_t n, const V & v) { p->resize(n, v); }
    void reserve(std::size_t n) { p->reserve(n); }
    void clear() { p->clear(); }
    template <class V> void push_back(const V & v) { p->push_back(v); }
    template <class... A> void emplace_back(A &&... a) { p->emplace_back(std::forward<A>(a)...); }
};
template <class T> class WriteOnlyAccessor<core::objectmodel::Data<T>> : public WriteAccessor<core::objectmodel::Data<T>> {
    using B = WriteAccessor<core::objectmodel::Data<T>>;
public:
    WriteOnlyAccessor(core::objectmodel::Data<T> & d) : B(d, typename B::WO {}) {}
    WriteOnlyAccessor(core::objectmodel::Data<T> * d) : B(*d, typename B::WO {}) {}
    using B::operator=;
};
template <class T> ReadAccessor<core::objectmodel::Data<T>> getReadAccessor(const core::objectmodel::Data<T> & d) { return {d}; }
template <class T> WriteAccessor<core::objectmodel::Data<T>> getWriteAccessor(core::objectmodel::Data<T> & d) { return {d}; }
template <class T> WriteOnlyAccessor<core::objectmodel::Data<T>> getWriteOnlyAccessor(core::objectmodel::Data<T> & d) { return {d}; }
} // namespace helper

// ------------------------------------------------------------------------------- matrices, vectors
namespace defaulttype {
using type::Vec; using type::Mat; using type::Mat3x3; using type::Mat3x3d; using type::Mat3x3f; using type::Mat2x2d; using type::Mat2x2f; using type::Vector3; using type::Vector2;
template <class R> using TBoundingBox = type::TBoundingBox<R>;

class BaseVector {
public:
    typedef SignedIndex Index;
    enum ElementType { ELEMENT_UNKNOWN = 0, ELEMENT_FLOAT, ELEMENT_INT };
    virtual ~BaseVector() = default;
    virtual Index size() const = 0;
    virtual SReal element(Index i) const = 0;
    SReal operator[](Index i) const { return element(i); }
    virtual void resize(Index n) = 0;
    virtual void clear() = 0;
    virtual void set(Index i, SReal v) = 0;
    virtual void add(Index i, SReal v) = 0;
    virtual ElementType getElementType() const { return ELEMENT_UNKNOWN; }
    virtual std::size_t getElementSize() const { return 0; }
};
class BaseMatrix {
public:
    typedef SignedIndex Index;
    virtual ~BaseMatrix() = default;
    virtual Index rowSize() const = 0;
    virtual Index colSize() const = 0;
    Index rows() const { return rowSize(); }
    Index cols() const { return colSize(); }
    virtual SReal element(Index i, Index j) const = 0;
    SReal operator()(Index i, Index j) const { return element(i, j); }
    virtual void resize(Index r, Index c) = 0;
    virtual void clear() = 0;
    virtual void set(Index i, Index j, double v) = 0;
    virtual void add(Index i, Index j, double v) = 0;
    virtual void add(Index r, Index c, const type::Mat3x3d & m) { for (Index i = 0; i < 3; ++i) for (Index j = 0; j < 3; ++j) add(r + i, c + j, double(m[i][j])); }
    virtual void add(Index r, Index c, const type::Mat3x3f & m) { for (Index i = 0; i < 3; ++i) for (Index j = 0; j < 3; ++j) add(r + i, c + j, double(m[i][j])); }
    virtual void add(Index r, Index c, const type::Mat2x2d & m) { for (Index i = 0; i < 2; ++i) for (Index j = 0; j < 2; ++j) add(r + i, c + j, double(m[i][j])); }
    virtual void add(Index r, Index c, const type::Mat2x2f & m) { for (Index i = 0; i < 2; ++i) for (Index j = 0; j < 2; ++j) add(r + i, c + j, double(m[i][j])); }
    virtual void clear(Index i, Index j) { set(i, j, 0.0); }
    virtual void clearRow(Index i) { for (Index j = 0; j < colSize(); ++j) set(i, j, 0.0); }
    virtual void clearRows(Index a, Index b) { for (Index i = a; i <= b; ++i) clearRow(i); }
    virtual void clearCol(Index j) { for (Index i = 0; i < rowSize(); ++i) set(i, j, 0.0); }
    virtual void clearCols(Index a, Index b) { for (Index i = a; i <= b; ++i) clearCol(i); }
    virtual void clearRowCol(Index i) { clearRow(i); clearCol(i); }
    virtual void compress() {}
};

// Sparse matrix of derivatives, as used for constraint jacobians: map row -> map column -> Deriv.
template <class T> class MapMapSparseMatrix {
    std::map<Index, std::map<Index, T>> p;
public:
    using Line = std::map<Index, T>;
    class ColConstIterator {
        typename Line::const_iterator it;
    public:
        explicit ColConstIterator(typename Line::const_iterator i) : it(i) {}
        Index index() const { return it->first; }
        const T & val() const { return it->second; }
        ColConstIterator & operator++() { ++it; return *this; }
        void operator++(int) { ++it; }
        bool operator==(const ColConstIterator & o) const { return it == o.it; }
        bool operator!=(const ColConstIterator & o) const { return it != o.it; }
    };
    class RowConstIterator {
        typename std::map<Index, Line>::const_iterator it;
    public:
        explicit RowConstIterator(typename std::map<Index, Line>::const_iterator i) : it(i) {}
        Index index() const { return it->first; }
        ColConstIterator begin() const { return ColConstIterator(it->second.begin()); }
        ColConstIterator end() const { return ColConstIterator(it->second.end()); }
        RowConstIterator & operator++() { ++it; return *this; }
        void operator++(int) { ++it; }
        bool operator==(const RowConstIterator & o) const { return it == o.it; }
        bool operator!=(const RowConstIterator & o) const { return it != o.it; }
    };
    class RowIterator {
        Line * l; Index i;
    public:
        RowIterator(Line * ll, Index ii) : l(ll), i(ii) {}
        Index index() const { return i; }
        void addCol(Index c, const T & v) { auto it = l->find(c); if (it == l->end()) l->emplace(c, v); else it->second += v; }
        void setCol(Index c, const T & v) { (*l)[c] = v; }
    };
    RowConstIterator begin() const { return RowConstIterator(p.begin()); }
    RowConstIterator end() const { return RowConstIterator(p.end()); }
    RowIterator writeLine(Index i) { return RowIterator(&p[i], i); }
    std::size_t size() const { return p.size(); }
    bool empty() const { return p.empty(); }
    void clear() { p.clear(); }
    const std::map<Index, Line> & stub() const { return p; }
};

template <class TCoord, class TDeriv, class TReal> class StdVectorTypes {
public:
    typedef TCoord Coord; typedef TDeriv Deriv; typedef TReal Real;
    typedef TCoord CPos; typedef TDeriv DPos;
    typedef type::vector<Coord> VecCoord; typedef type::vector<Deriv> VecDeriv; typedef type::vector<Real> VecReal;
    typedef MapMapSparseMatrix<Deriv> MatrixDeriv;
    static constexpr Size spatial_dimensions = Coord::spatial_dimensions;
    static constexpr Size coord_total_size = Coord::spatial_dimensions;
    static constexpr Size deriv_total_size = Deriv::spatial_dimensions;
    static const char * Name() { static const std::string n = "Vec" + std::to_string(spatial_dimensions) + (sizeof(Real) == 8 ? "d" : "f"); return n.c_str(); }
};
using Vec1dTypes = StdVectorTypes<type::Vec<1, double>, type::Vec<1, double>, double>;
using Vec2dTypes = StdVectorTypes<type::Vec<2, double>, type::Vec<2, double>, double>;
using Vec3dTypes = StdVectorTypes<type::Vec<3, double>, type::Vec<3, double>, double>;
using Vec1Types = Vec1dTypes; using Vec2Types = Vec2dTypes; using Vec3Types = Vec3dTypes;
} // namespace defaulttype

namespace core {
// -------------------------------------------------------------------------------------- vector ids
enum VecType { V_ALL = 0, V_COORD, V_DERIV, V_MATDERIV };
enum VecAccess { V_READ = 0, V_WRITE };
class BaseMechState_;
template <VecType V, VecAccess A> class TVecId {
public:
    VecType type = V;
    unsigned int index = 0;
    TVecId() = default;
    explicit TVecId(unsigned int i) : index(i) {}
    TVecId(VecType t, unsigned int i) : type(t), index(i) {}
    // same type (READ <- WRITE), any type -> V_ALL, and the explicit narrowing V_ALL -> V
    template <VecType V2, VecAccess B, typename = std::enable_if_t<(V2 == V || V == V_ALL) && (A == V_READ || B == V_WRITE)>> TVecId(const TVecId<V2, B> & o) : type(o.type), index(o.index) {}
    template <VecType V2, VecAccess B, typename = std::enable_if_t<V2 == V_ALL && V != V_ALL && (A == V_READ || B == V_WRITE)>, typename = void> explicit TVecId(const TVecId<V2, B> & o) : index(o.index) { assert(o.type == V); }
    static TVecId null() { return TVecId(0); }
    static TVecId position() { return TVecId(1); }
    static TVecId restPosition() { return TVecId(2); }
    static TVecId freePosition() { return TVecId(3); }
    static TVecId resetPosition() { return TVecId(4); }
    static TVecId velocity() { return TVecId(1); }
    static TVecId resetVelocity() { return TVecId(2); }
    static TVecId freeVelocity() { return TVecId(3); }
    static TVecId normal() { return TVecId(4); }
    static TVecId force() { return TVecId(5); }
    static TVecId externalForce() { return TVecId(6); }
    static TVecId dx() { return TVecId(7); }
    static TVecId dforce() { return TVecId(8); }
    unsigned int getIndex() const { return index; }
    VecType getType() const { return type; }
    bool isNull() const { return index == 0; }
    std::string getName() const { return "v" + std::to_string(index); }
    bool operator==(const TVecId & o) const { return index == o.index && type == o.type; }
    bool operator!=(const TVecId & o) const { return !(*this == o); }
};
using VecId = TVecId<V_ALL, V_WRITE>; using ConstVecId = TVecId<V_ALL, V_READ>;
using VecCoordId = TVecId<V_COORD, V_WRITE>; using ConstVecCoordId = TVecId<V_COORD, V_READ>;
using VecDerivId = TVecId<V_DERIV, V_WRITE>; using ConstVecDerivId = TVecId<V_DERIV, V_READ>;
using MatrixDerivId = TVecId<V_MATDERIV, V_WRITE>; using ConstMatrixDerivId = TVecId<V_MATDERIV, V_READ>;
// In this miniature a multi-vector always has the same identifier in every state.
template <VecType V, VecAccess A> class TMultiVecId {
public:
    using MyVecId = TVecId<V, A>;
    MyVecId id;
    TMultiVecId() = default;
    TMultiVecId(const MyVecId & i) : id(i) {}
    template <VecType V2, VecAccess B, typename = std::enable_if_t<(V2 == V || V == V_ALL) && (A == V_READ || B == V_WRITE)>> TMultiVecId(const TVecId<V2, B> & o) : id(o) {}
    template <VecType V2, VecAccess B, typename = std::enable_if_t<(V2 == V || V == V_ALL) && (A == V_READ || B == V_WRITE)>> TMultiVecId(const TMultiVecId<V2, B> & o) : id(o.id) {}
    static TMultiVecId null() { return TMultiVecId(); }
    const MyVecId & getDefaultId() const { return id; }
    MyVecId getId(const void *) const { return id; }
    void assign(const MyVecId & i) { id = i; }
    template <class S> void setId(S *, const MyVecId & i) { id = i; }
    bool isNull() const { return id.isNull(); }
    std::string getName() const { return id.getName(); }
    bool operator==(const TMultiVecId & o) const { return id == o.id; }
    bool operator!=(const TMultiVecId & o) const { return id != o.id; }
    template <class S> struct Ref {
        MyVecId id; S * s;
        auto write() const { return s->write(id); }
        auto read() const { return s->read(TVecId<V, V_READ>(id)); }
    };
    template <class S> Ref<S> operator[](S * s) const { return {id, s}; }
};
using MultiVecId = TMultiVecId<V_ALL, V_WRITE>; using ConstMultiVecId = TMultiVecId<V_ALL, V_READ>;
using MultiVecCoordId = TMultiVecId<V_COORD, V_WRITE>; using ConstMultiVecCoordId = TMultiVecId<V_COORD, V_READ>;
using MultiVecDerivId = TMultiVecId<V_DERIV, V_WRITE>; using ConstMultiVecDerivId = TMultiVecId<V_DERIV, V_READ>;
using MultiMatrixDerivId = TMultiVecId<V_MATDERIV, V_WRITE>; using ConstMultiMatrixDerivId = TMultiVecId<V_MATDERIV, V_READ>;
} // namespace core
} // namespace sofa
#include "minisofa_sim.h"
