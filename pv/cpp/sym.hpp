// Symbolic numbers for the C++ kernels: the real headers of /repo are compiled with 'double' bound to Real, an exact
// polynomial (with rational coefficients) in named variables.  The verifier decides comparisons (both outcomes are
// explored) and names square roots: see ask().
#pragma once
#include <algorithm>
#include <cassert>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <new>
#include <numeric>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };

struct Q {
    long long n = 0, d = 1;
    static Q make(__int128 n, __int128 d){
        if (d < 0) { n = -n; d = -d; }
        __int128 a = n < 0 ? -n : n, b = d;
        while (b) { __int128 t = a % b; a = b; b = t; }
        if (a > 1) { n /= a; d /= a; }
        if (n > INT64_MAX || n < -INT64_MAX || d > INT64_MAX) throw Unsupported("coefficient out of range");
        Q q; q.n = (long long)n; q.d = (long long)d; return q;
    }
};
inline Q operator+(Q a, Q b){ return Q::make((__int128)a.n * b.d + (__int128)b.n * a.d, (__int128)a.d * b.d); }
inline Q operator*(Q a, Q b){ return Q::make((__int128)a.n * b.n, (__int128)a.d * b.d); }

using Mono = std::vector<std::pair<int,int>>;    // (variable, exponent), sorted

struct Vars {
    std::vector<std::string> names;
    std::map<std::string,int> index;
    int get(std::string const& s){
        auto it = index.find(s);
        if (it != index.end()) return it->second;
        int i = names.size(); names.push_back(s); index[s] = i; return i;
    }
    static Vars& all(){ static Vars v; return v; }
};

class Real {
public:
    std::map<Mono,Q> t;

    Real(){}
    template <class A, typename std::enable_if<std::is_integral<A>::value,int>::type = 0>
    Real(A a){ if (a) { Q q; q.n = (long long)a; t[Mono()] = q; } }
    template <class A, typename std::enable_if<std::is_floating_point<A>::value,int>::type = 0>
    Real(A a){
        if (a == 0) return;
        double s = a * 1048576.;
        if (s == std::floor(s) && std::fabs(s) < 1e15) { t[Mono()] = Q::make((long long)s, 1048576); return; }
        std::ostringstream o; o << std::hexfloat << a;
        std::string name = "const:";
        for (char c : o.str()) if (c != '+') name += c;
        int i = Vars::all().get(name);
        Q one; one.n = 1; t[Mono{{i,1}}] = one;
    }
    static Real var(std::string const& name){
        int i = Vars::all().get(name);
        Real r; Q one; one.n = 1; r.t[Mono{{i,1}}] = one;
        return r;
    }
    bool is_zero() const { return t.empty(); }
    template <class U, typename std::enable_if<std::is_same<U,unsigned>::value,int>::type = 0> operator U() const { throw Unsupported("number of steps"); }
    Real operator-() const { Real r(*this); for (auto& x : r.t) x.second.n = -x.second.n; return r; }
    Real& operator+=(Real const& o){
        if (this == &o) { Real c(o); return *this += c; }
        for (auto const& x : o.t){
            auto it = t.find(x.first);
            if (it == t.end()) t.insert(x);
            else { it->second = it->second + x.second; if (!it->second.n) t.erase(it); }
        }
        return *this;
    }
    Real& operator-=(Real const& o){ return *this += -o; }
    Real& operator*=(Real const& o){ *this = times(*this, o); return *this; }
    Real& operator/=(Real const& o){ *this = times(*this, o.inv()); return *this; }
    static Real times(Real const& a, Real const& b);
    Real inv() const {
        if (t.size() != 1) throw Unsupported("division by a sum");
        Real r;
        Mono m = t.begin()->first;
        for (auto& p : m) p.second = -p.second;
        r.t[m] = Q::make(t.begin()->second.d, t.begin()->second.n);
        return r;
    }
    std::string show() const {
        if (t.empty()) return "0";
        std::ostringstream o; bool first = true;
        for (auto const& x : t){
            if (!first) o << '+';
            first = false;
            o << x.second.n << '/' << x.second.d;
            for (auto const& p : x.first) o << '*' << Vars::all().names[p.first] << '^' << p.second;
        }
        return o.str();
    }
};

// a question to the verifier: one line out, one line in
inline std::string ask(std::string const& q){
    std::cout << "ask " << q << std::endl;
    std::string a;
    if (!std::getline(std::cin, a)) std::exit(0);
    return a;
}

inline Real Real::times(Real const& a, Real const& b){
    Real r;
    for (auto const& x : a.t) for (auto const& y : b.t){
        Mono m;
        auto i = x.first.begin(); auto j = y.first.begin();
        while (i != x.first.end() || j != y.first.end()){
            if (j == y.first.end() || (i != x.first.end() && i->first < j->first)) m.push_back(*i++);
            else if (i == x.first.end() || j->first < i->first) m.push_back(*j++);
            else { if (i->second + j->second) m.push_back({i->first, i->second + j->second}); ++i; ++j; }
        }
        Q c = x.second * y.second;
        auto it = r.t.find(m);
        if (it == r.t.end()) r.t[m] = c;
        else { it->second = it->second + c; if (!it->second.n) r.t.erase(it); }
    }
    return r;
}
inline Real sym_sqrt(Real const& x){
    if (x.is_zero()) return Real();
    return Real::var(ask("sqrt " + x.show()));
}
inline bool sym_cmp(const char* op, Real const& a, Real const& b){
    Real d(a); d -= b;
    return ask(std::string(op) + " " + d.show()) == "1";
}

#define SYM_OP(op, asg) \
    inline Real operator op(Real a, Real const& b){ a asg b; return a; } \
    template <class A, typename std::enable_if<std::is_arithmetic<A>::value,int>::type = 0> inline Real operator op(Real a, A b){ a asg Real(b); return a; } \
    template <class A, typename std::enable_if<std::is_arithmetic<A>::value,int>::type = 0> inline Real operator op(A a, Real const& b){ Real r(a); r asg b; return r; }
SYM_OP(+, +=) SYM_OP(-, -=) SYM_OP(*, *=) SYM_OP(/, /=)
#define SYM_CMP(op) \
    inline bool operator op(Real const& a, Real const& b){ return sym_cmp(#op, a, b); } \
    template <class A, typename std::enable_if<std::is_arithmetic<A>::value,int>::type = 0> inline bool operator op(Real const& a, A b){ return sym_cmp(#op, a, Real(b)); } \
    template <class A, typename std::enable_if<std::is_arithmetic<A>::value,int>::type = 0> inline bool operator op(A a, Real const& b){ return sym_cmp(#op, Real(a), b); }
SYM_CMP(<) SYM_CMP(>) SYM_CMP(<=) SYM_CMP(>=) SYM_CMP(==) SYM_CMP(!=)

namespace std {
template <> class complex<Real> {
public:
    using value_type = Real;
    Real re, im;
    complex(){}
    complex(Real const& r) : re(r) {}
    complex(Real const& r, Real const& i) : re(r), im(i) {}
    template <class A, typename std::enable_if<std::is_arithmetic<A>::value,int>::type = 0> complex(A a) : re(a) {}
    Real real() const { return re; }
    Real imag() const { return im; }
    void real(Real const& x){ re = x; }
    void imag(Real const& x){ im = x; }
    complex& operator=(Real const& r){ re = r; im = Real(); return *this; }
    template <class A, typename std::enable_if<std::is_arithmetic<A>::value,int>::type = 0> complex& operator=(A a){ re = Real(a); im = Real(); return *this; }
    complex& operator+=(complex const& o){ re += o.re; im += o.im; return *this; }
    complex& operator-=(complex const& o){ re -= o.re; im -= o.im; return *this; }
    complex& operator*=(complex const& o){
        Real a = re * o.re - im * o.im, b = re * o.im + im * o.re; re = a; im = b; return *this;
    }
    complex& operator+=(Real const& o){ re += o; return *this; }
    complex& operator-=(Real const& o){ re -= o; return *this; }
    complex& operator*=(Real const& o){ Real c(o); re *= c; im *= c; return *this; }
    complex& operator/=(Real const& o){ Real c(o.inv()); re *= c; im *= c; return *this; }
    complex& operator/=(complex const&){ throw Unsupported("complex division"); }
};
inline Real sqrt(Real const& x){ return sym_sqrt(x); }
inline Real abs(Real const& x){ return x < 0 ? -x : x; }
inline Real fabs(Real const& x){ return x < 0 ? -x : x; }
inline Real norm(complex<Real> const& c){ return c.re * c.re + c.im * c.im; }
inline Real real(complex<Real> const& c){ return c.re; }
inline Real imag(complex<Real> const& c){ return c.im; }
inline complex<Real> conj(complex<Real> const& c){ return {c.re, -c.im}; }
inline Real abs(complex<Real> const& c){ return sym_sqrt(norm(c)); }
inline complex<Real> exp(complex<Real> const&){ throw Unsupported("exponential"); }
template <> class uniform_real_distribution<Real> {
public:
    template <class A, class B> uniform_real_distribution(A, B) {}
    template <class G> Real operator()(G&){ return Real::var(ask("random")); }
};
}
