// Register machine over the public C++ interface of HyperJet. Reads a script of operations, performs each on real
// objects and records every call: arguments, outcome, returned items and the exact contents of every live object.
#pragma once
#ifndef NO_EIGEN
#include <Eigen/Core>
#include <Eigen/Geometry>
#endif
#include <hyperjet/hyperjet.h>
#include "ops.h" // generated from spec/ops.qnt

#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

namespace hj = hyperjet;
using Word = std::uint64_t;
using std::vector;

struct Cmd
{
    long op;
    vector<long> I;
    vector<double> D;
};
struct Unsupported : std::exception
{
};

inline Word bits(double x)
{
    Word w;
    std::memcpy(&w, &x, 8);
    return w;
}
constexpr Word BIAS = Word(1) << 32;
inline Word biased(long k) { return BIAS + Word(k); }

template <class S>
struct ScalarInfo;
template <>
struct ScalarInfo<double>
{
    static constexpr int code = 0;
};
template <>
struct ScalarInfo<float>
{
    static constexpr int code = 1;
};
template <>
struct ScalarInfo<long double>
{
    static constexpr int code = 2;
};
template <class S>
void put(vector<Word> &r, S x)
{
    r.push_back(bits(double(x)));
    if (ScalarInfo<S>::code == 2)
        r.push_back(bits(double(x - S(double(x)))));
}

constexpr int UNIVERSE = 21;                               // names of sparse variables; one more is never used
extern const char *const NAMES[UNIVERSE + 1];
struct Out
{
    FILE *file;
    void event(const Cmd &c, int outcome, const vector<Word> &R, const vector<Word> &O, long nO)
    {
        vector<Word> w{0, Word(c.op), Word(outcome), Word(c.I.size()) | Word(c.D.size()) << 16 | Word(R.size()) << 32 | Word(nO) << 48};
        for (long i : c.I)
            w.push_back(biased(i));
        for (double d : c.D)
            w.push_back(bits(d));
        w.insert(w.end(), R.begin(), R.end());
        w.insert(w.end(), O.begin(), O.end());
        w[0] = w.size();
        std::fwrite(w.data(), 8, w.size(), file);
        std::fflush(file);
    }
};

#ifndef NO_TRY
#define TRY try
#define CATCH                   \
    catch (const Unsupported &) \
    {                           \
        throw;                  \
    }                           \
    catch (const std::exception &) { outcome = 1; R.clear(); }
#else
#define TRY
#define CATCH
#endif

[[noreturn]] inline void unsupported(const Cmd &c)
{
    std::fprintf(stderr, "unsupported operation %ld\n", c.op);
    std::_Exit(77);
}

template <class T>
struct IsSparse
{
    static constexpr bool value = false;
};
template <class S>
struct IsSparse<hj::SScalar<S>>
{
    static constexpr bool value = true;
};

template <class T>
struct Regs
{
    std::map<long, std::unique_ptr<T>> m;
    T &operator[](long r) { return *m.at(r); }
    void set(long r, T &&x) { m[r] = std::make_unique<T>(std::move(x)); }
    void set(long r, const T &x) { m[r] = std::make_unique<T>(x); }
};

// operations offered by dense and sparse numbers alike; returns false if the operation is not one of these
template <class T>
bool common(const Cmd &c, Regs<T> &X, vector<Word> &R)
{
    using S = typename T::Scalar;
    const auto &I = c.I;
    const long sp = I.empty() ? 0 : I[0];
    auto A = [&]() -> const T &
    { return X[I[2]]; };
    auto B = [&]() -> const T &
    { return X[I[3]]; };
    const S k = c.D.empty() ? S(0) : S(c.D[0]);
    switch (c.op)
    {
    case OP_FORGET:
        X.m.erase(I[0]);
        return true;
    case OP_COPY:
        if (sp == 0)
            X.set(I[1], T(A()));
        else if (sp == 1 && X.m.count(I[1]))
            X[I[1]] = A(); // copy assignment over an existing object
        else if (sp == 2)
        {
            T t(A());
            T u(std::move(t));
            X.set(I[1], std::move(u));
        }
        else if (sp == 3 && X.m.count(I[1]))
        {
            T t(A());
            X[I[1]] = std::move(t);
        }
        else
        {
            vector<T> v(3, A());
            v.reserve(50);
            v.push_back(v[0]);
            v.erase(v.begin());
            X.set(I[1], v.back());
        }
        return true;
    case OP_TEXT:
    {
        std::string s;
        if (sp == 0)
            s = X[I[1]].to_string();
        else
        {
            std::ostringstream o; // the second of two on one stream: printing leaves the stream as it was
            o << X[I[1]];
            o.str("");
            o << X[I[1]];
            s = o.str();
        }
        for (unsigned char ch : s)
            R.push_back(ch);
        return true;
    }
    case OP_CMP:
    {
        const T &a = X[I[1]];
        const T &b = X[I[2]];
        for (bool v : {a == b, a != b, a < b, a > b, a <= b, a >= b})
            R.push_back(biased(v));
        return true;
    }
    case OP_CMPC:
    {
        const T &a = X[I[1]];
        for (bool v : {a == k, a != k, a < k, a > k, a <= k, a >= k, k == a, k != a, k < a, k > a, k <= a, k >= a})
            R.push_back(biased(v));
        return true;
    }
#define ASSIGN(e)                        \
    if (sp >= 10 && X.m.count(I[1]))     \
        X[I[1]] = (e);                   \
    else                                 \
        X.set(I[1], (e));                \
    return true;
    case OP_ADD:
        ASSIGN(A() + B())
    case OP_SUB:
        ASSIGN(A() - B())
    case OP_MUL:
        ASSIGN(A() * B())
    case OP_DIV:
        ASSIGN(A() / B())
    case OP_ADDC:
        ASSIGN(A() + k)
    case OP_SUBC:
        ASSIGN(A() - k)
    case OP_MULC:
        ASSIGN(A() * k)
    case OP_DIVC:
        ASSIGN(A() / k)
    case OP_CADD:
        ASSIGN(k + A())
    case OP_CSUB:
        ASSIGN(k - A())
    case OP_CMUL:
        ASSIGN(k * A())
    case OP_CDIV:
        ASSIGN(k / A())
    case OP_NEG:
        ASSIGN(-A())
    case OP_IADD:
        X[I[1]] += X[I[2]];
        return true;
    case OP_ISUB:
        X[I[1]] -= X[I[2]];
        return true;
    case OP_IMUL:
        X[I[1]] *= X[I[2]];
        return true;
    case OP_IDIV:
        X[I[1]] /= X[I[2]];
        return true;
    case OP_IADDC:
        X[I[1]] += k;
        return true;
    case OP_ISUBC:
        X[I[1]] -= k;
        return true;
    case OP_IMULC:
        X[I[1]] *= k;
        return true;
    case OP_IDIVC:
        X[I[1]] /= k;
        return true;
    case OP_IADDE:
    case OP_ISUBE:
    case OP_IMULE:
    case OP_IDIVE:
        if constexpr (!IsSparse<T>::value)
        {
            T &a = X[I[1]], &b = X[I[2]];
            const hj::index n = b.size(), e = I[3];
            S &r = e == 0 ? (sp % 2 ? b.f() : b.data()[0]) : e <= n && sp % 2 ? b.g(e - 1) : b.ptr()[e];
            if (c.op == OP_IADDE)
                a += r;
            else if (c.op == OP_ISUBE)
                a -= r;
            else if (c.op == OP_IMULE)
                a *= r;
            else
                a /= r;
            return true;
        }
        return false;
    case OP_POW:
        if (sp % 10 == 0)
        {
            ASSIGN(A().pow(c.D[0]))
        }
        else if (sp % 10 == 2)
        {
            ASSIGN(pow(A(), hj::index(c.D[0])))
        }
        else
        {
            ASSIGN(pow(A(), typename std::conditional<IsSparse<T>::value, S, double>::type(c.D[0])))
        }
#define FUN(OP, name)        \
    case OP:                 \
        if (sp % 10 == 0)    \
        {                    \
            ASSIGN(A().name())   \
        }                    \
        else                 \
        {                    \
            ASSIGN(name(A()))    \
        }
        FUN(OP_ABS, abs)
        FUN(OP_SQRT, sqrt)
        FUN(OP_CBRT, cbrt)
        FUN(OP_COS, cos)
        FUN(OP_SIN, sin)
        FUN(OP_TAN, tan)
        FUN(OP_ACOS, acos)
        FUN(OP_ASIN, asin)
        FUN(OP_ATAN, atan)
        FUN(OP_COSH, cosh)
        FUN(OP_SINH, sinh)
        FUN(OP_TANH, tanh)
        FUN(OP_ACOSH, acosh)
        FUN(OP_ASINH, asinh)
        FUN(OP_ATANH, atanh)
        FUN(OP_EXP, exp)
        FUN(OP_LOG, log)
        FUN(OP_LOG2, log2)
        FUN(OP_LOG10, log10)
    case OP_RECIP:
        ASSIGN(A().reciprocal())
    case OP_LOGB:
        ASSIGN(A().log(k))
    case OP_ATAN2:
        if (sp % 10 == 0)
        {
            ASSIGN(A().atan2(B()))
        }
        else
        {
            ASSIGN(atan2(A(), B()))
        }
    case OP_HYPOT:
        if (sp % 10 == 0)
        {
            ASSIGN(T::hypot(A(), B()))
        }
        else
        {
            ASSIGN(hypot(A(), B()))
        }
    case OP_HYPOT3:
        if (sp % 10 == 0)
        {
            ASSIGN(T::hypot(A(), B(), X[I[4]]))
        }
        else
        {
            ASSIGN(hypot(A(), B(), X[I[4]]))
        }
    case OP_ACMP:
        for (long t = 0; t < I[1]; t++)
        {
            const T &a = X[I[2 + t]];
            const T &b = X[I[2 + I[1] + t]];
            for (bool v : {a == b, a != b, a < b, a > b, a <= b, a >= b})
                R.push_back(biased(v));
        }
        return true;
    case OP_END:
        return true;
    }
    return false;
}


// ---- dense numbers

// the types for which all array functions are compiled
template <class T>
constexpr bool wide()
{
    return std::is_same_v<typename T::Scalar, double> && (T::static_size() == 2 || T::static_size() == -1);
}
template <class T>
void dense_op(const Cmd &c, Regs<T> &X, vector<Word> &R)
{
    using S = typename T::Scalar;
    constexpr hj::index N = T::static_size();
    constexpr hj::index O = T::order();
    constexpr bool dyn = T::is_dynamic();
    const auto &I = c.I;
    const long sp = I.empty() ? 0 : I[0];
    if (common(c, X, R))
        return;
    vector<S> D;
    for (double d : c.D)
        D.push_back(S(d));
    const S k = D.empty() ? S(0) : D[0];
    const bool given = I.size() > 2 && I[2] != ABSENT;
    auto from = [](const vector<S> &v, long at, long cnt)
    { return vector<S>(v.begin() + at, v.begin() + at + cnt); };
    (void)from;
    switch (c.op)
    {
    case OP_ZERO:
        X.set(I[1], given ? T::zero(I[2]) : T::zero());
        return;
    case OP_EMPTY:
        X.set(I[1], given ? T::empty(I[2]) : T::empty());
        return;
    case OP_DEFAULT:
        if constexpr (dyn)
        {
            X.set(I[1], T());
            return;
        }
        break;
    case OP_CONST:
        if (sp == 1)
            X.set(I[1], T(k));
        else
            X.set(I[1], given ? T::constant(k, I[2]) : T::constant(k));
        return;
    case OP_VAR:
        if (given)
            X.set(I[1], T::variable(I[7], k, I[2]));
        else if constexpr (!dyn)
            X.set(I[1], T::variable(I[7], k));
        else
            break;
        return;
    case OP_VARS:
    {
        auto store = [&](const auto &vars)
        {
            long r = I[1];
            for (const auto &x : vars)
                X.set(r++, x);
            if (long(vars.size()) != long(D.size()))
                throw std::logic_error("wrong number of variables");
        };
        if (sp == 0)
            store(T::variables(D));
        else if constexpr (!dyn)
        {
            std::array<S, N> a{};
            std::copy(D.begin(), D.end(), a.begin());
            store(T::template variables<N>(a));
        }
        else
        {
#define VARS_CASE(n)                                    \
    case n:                                             \
    {                                                   \
        std::array<S, n> a{};                           \
        std::copy(D.begin(), D.end(), a.begin());       \
        store(T::template variables<n>(a));             \
        break;                                          \
    }
            switch (D.size())
            {
                VARS_CASE(0)
                VARS_CASE(1)
                VARS_CASE(2)
                VARS_CASE(3)
                VARS_CASE(4)
                VARS_CASE(5)
                VARS_CASE(6)
                VARS_CASE(7)
                VARS_CASE(9)
                VARS_CASE(17)
            default:
                unsupported(c);
            }
        }
        return;
    }
    case OP_DATA:
        if (sp == 1)
        {
            switch (D.size())
            {
            case 0:
                X.set(I[1], T(std::initializer_list<S>{}));
                break;
            case 1:
                X.set(I[1], T(std::initializer_list<S>{D[0]}));
                break;
            case 2:
                X.set(I[1], T(std::initializer_list<S>{D[0], D[1]}));
                break;
            case 3:
                X.set(I[1], T(std::initializer_list<S>{D[0], D[1], D[2]}));
                break;
            case 4:
                X.set(I[1], T(std::initializer_list<S>{D[0], D[1], D[2], D[3]}));
                break;
            case 5:
                X.set(I[1], T(std::initializer_list<S>{D[0], D[1], D[2], D[3], D[4]}));
                break;
            case 6:
                X.set(I[1], T(std::initializer_list<S>{D[0], D[1], D[2], D[3], D[4], D[5]}));
                break;
            case 10:
                X.set(I[1], T(std::initializer_list<S>{D[0], D[1], D[2], D[3], D[4], D[5], D[6], D[7], D[8], D[9]}));
                break;
            default:
                unsupported(c);
            }
        }
        else
        {
            typename T::Data data{};
            if constexpr (dyn)
                data = D;
            else
                std::copy(D.begin(), D.end(), data.begin());
            if (sp == 2)
            {
                if constexpr (dyn)
                    X.set(I[1], T(data, T::size_from_data_length(hj::length(data))));
                else
                    X.set(I[1], T(data));
            }
            else
                X.set(I[1], T::create(data));
        }
        return;
    case OP_SIZEOF:
        R.push_back(biased(I[2] == 0 ? T::data_length_from_size(I[3]) : T::size_from_data_length(I[3])));
        return;
    case OP_VIEWS:
    {
        T &a = X[I[1]];
        const T &ca = a;
        const bool mut = sp & 256;
        const long n = ca.size();
        if (sp & 1)
            put(R, mut ? a.f() : ca.f());
        if (sp & 2)
            for (long i = 0; i < n; i++)
                put(R, mut ? a.g(i) : ca.g(i));
        if constexpr (O == 2)
        {
            if (sp & 4)
                for (long i = 0; i < n * (n + 1) / 2; i++)
                    put(R, mut ? a.h(i) : ca.h(i));
            if (sp & 8)
                for (long i = 0; i < n; i++)
                    for (long j = 0; j < n; j++)
                        put(R, mut ? a.h(i, j) : ca.h(i, j));
#ifndef NO_EIGEN
            for (long b : {16, 32})
                if (sp & b)
                {
                    typename T::Matrix m = ca.hm(b == 16 ? "full" : "zeros");
                    if (m.rows() != n || m.cols() != n)
                        R.push_back(0);
                    for (long i = 0; i < m.rows(); i++)
                        for (long j = 0; j < m.cols(); j++)
                            put(R, S(m(i, j)));
                }
#endif
        }
        if (sp & 64)
        {
            if (mut)
                for (long i = 0; i < ca.data_length(); i++)
                    put(R, S(a.ptr()[i]));
            else
                for (const S &x : ca.data())
                    put(R, x);
        }
#ifndef NO_EIGEN
        if (sp & 128)
        {
            if (mut)
            {
                auto v = a.ag();
                for (long i = 0; i < v.size(); i++)
                    put(R, S(v[i]));
            }
            else
            {
                auto v = ca.ag();
                for (long i = 0; i < v.size(); i++)
                    put(R, S(v[i]));
            }
        }
#endif
        return;
    }
    case OP_INFO:
    {
        const T &a = X[I[1]];
        const long l[5] = {long(O), dyn ? 1 : 0, long(a.size()), long(a.data_length()), long(N)};
        for (int i = 0; i < 5; i++)
            if (sp >> i & 1)
                R.push_back(biased(l[i]));
        return;
    }
    case OP_SETF:
        if (sp == 0)
            X[I[1]].set_f(k);
        else
            X[I[1]].f() = k;
        return;
    case OP_SETG:
        if (sp == 0)
            X[I[1]].set_g(I[2], k);
#ifndef NO_EIGEN
        else if (sp == 2)
            X[I[1]].ag()[I[2]] = k;
#endif
        else
            X[I[1]].g(I[2]) = k;
        return;
    case OP_SETDATA:
        if (sp == 0)
            X[I[1]].data()[I[2]] = k;
#ifndef NO_EIGEN
        else if (sp == 2)
            X[I[1]].adata()[I[2]] = k;
#endif
        else
            X[I[1]].ptr()[I[2]] = k;
        return;
    case OP_SETALL:
    {
        T &a = X[I[1]];
#ifndef NO_EIGEN
        if (sp == 0)
        {
            typename T::DataVector v(D.size());
            for (size_t i = 0; i < D.size(); i++)
                v[i] = D[i];
            a.set_adata(v);
            return;
        }
#endif
        std::copy(D.begin(), D.end(), a.data().begin());
        return;
    }
    case OP_SETZERO:
        X[I[1]].set_zero();
        return;
    }
    if constexpr (O == 2)
    {
        switch (c.op)
        {
        case OP_SETH:
            if (sp == 0)
                X[I[1]].set_h(I[2], k);
            else
                X[I[1]].h(I[2]) = k;
            return;
        case OP_SETHIJ:
            if (sp == 0)
                X[I[1]].set_h(I[2], I[3], k);
            else
                X[I[1]].h(I[2], I[3]) = k;
            return;
        }
    }
    if constexpr (dyn)
    {
        switch (c.op)
        {
        case OP_RESIZE:
            X[I[1]].resize(I[2]);
            return;
        case OP_PADL:
            X.set(I[1], X[I[2]].pad_left(I[3]));
            return;
        case OP_PADR:
            X.set(I[1], X[I[2]].pad_right(I[3]));
            return;
        }
    }
#ifndef NO_EIGEN
    using Row = Eigen::Matrix<S, 1, N>;
    using Sq = Eigen::Matrix<S, N, N>;
    switch (c.op)
    {
    case OP_EVAL:
    {
        const T &a = X[I[1]];
        if constexpr (dyn)
            put(R, a.eval(D));
        else
        {
            std::array<S, N> d{};
            std::copy(D.begin(), D.end(), d.begin());
            put(R, a.eval(d));
        }
        return;
    }
    case OP_GRAD:
        if constexpr (O == 1)
        {
            Row g(D.size() - 1);
            for (long i = 0; i < g.size(); i++)
                g[i] = D[1 + i];
            X.set(I[1], T::from_gradient(k, g));
            return;
        }
        break;
    case OP_ARRS:
        if constexpr (O == 2)
        {
            Row g(I[7]);
            Sq m(I[8], I[9]);
            for (long i = 0; i < g.size(); i++)
                g[i] = D[1 + i];
            for (long i = 0; i < I[8]; i++)
                for (long j = 0; j < I[9]; j++)
                    m(i, j) = D[1 + I[7] + i * I[9] + j];
            X.set(I[1], T::from_arrays(k, g, m));
            return;
        }
        break;
    case OP_SETHM:
        if constexpr (O == 2)
        {
            Sq m(I[2], I[3]);
            for (long i = 0; i < I[2]; i++)
                for (long j = 0; j < I[3]; j++)
                    m(i, j) = D[i * I[3] + j];
            X[I[1]].set_hm(m);
            return;
        }
        break;
    case OP_HM:
        if constexpr (O == 2)
        {
            const char *const modes[] = {"full", "zeros", "upper", "", "Full", "full "};
            const T &a = X[I[1]];
            Sq m(I.size() > 3 ? I[3] : a.size(), I.size() > 4 ? I[4] : a.size());
            if (sp == 0)
                m = a.hm(modes[I[2]]);
            else
            {
                m.setConstant(S(7.25));                       // what the caller's matrix contained does not matter
                a.hm(modes[I[2]], m);
            }
            for (long i = 0; i < m.rows(); i++)
                for (long j = 0; j < m.cols(); j++)
                    put(R, S(m(i, j)));
            return;
        }
        break;
    }
#ifndef NO_ARRAYS
    if (c.op >= OP_AMAP && c.op <= OP_ANORM || c.op == OP_APROD || c.op == OP_ADET)
    {
        using Mat = Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>;
        using Vec = Eigen::Matrix<T, Eigen::Dynamic, 1>;
        auto vec = [&](long at, long cnt)
        {
            Vec v(cnt);
            for (long i = 0; i < cnt; i++)
                v[i] = X[I[at + i]];
            return v;
        };
        auto mat = [&](long at, long m, long n)
        {
            Mat v(m, n);
            for (long i = 0; i < m; i++)
                for (long j = 0; j < n; j++)
                    v(i, j) = X[I[at + i * n + j]];
            return v;
        };
        auto store = [&](long at, const Vec &v, long cnt)
        {
            if (v.size() != cnt)
                throw std::logic_error("wrong shape");
            for (long i = 0; i < cnt; i++)
                X.set(I[at + i], T(v[i]));
        };
        switch (c.op)
        {
        case OP_AMAP:
        {
            const Vec a = vec(3 + I[2], I[2]);
            switch (I[1])
            {
            case OP_NEG:
                store(3, sp == 1 ? Vec((-a.array()).matrix()) : Vec(-a), I[2]);
                return;
            case OP_MULC:
                store(3, sp == 1 ? Vec((a.array() * k).matrix()) : Vec(a * k), I[2]);
                return;
            case OP_CMUL:
                store(3, sp == 1 ? Vec((k * a.array()).matrix()) : Vec(k * a), I[2]);
                return;
            case OP_DIVC:
                store(3, sp == 1 ? Vec((a.array() / k).matrix()) : Vec(a / k), I[2]);
                return;
            }
#define ARRAY_FUNCTION(OP, NAME)                                                                                          \
    case OP:                                                                                                              \
        store(3, sp == 1 ? Vec(a.unaryExpr([](const T &x) { using std::NAME; return NAME(x); })) : Vec(a.array().NAME().matrix()), I[2]); \
        return;
            switch (I[1])
            {
                ARRAY_FUNCTION(OP_SQRT, sqrt)
                ARRAY_FUNCTION(OP_EXP, exp)
                ARRAY_FUNCTION(OP_SIN, sin)
            }
            if constexpr (wide<T>())
                switch (I[1])
                {
                    ARRAY_FUNCTION(OP_COS, cos)
                    ARRAY_FUNCTION(OP_TAN, tan)
                    ARRAY_FUNCTION(OP_ACOS, acos)
                    ARRAY_FUNCTION(OP_ASIN, asin)
                    ARRAY_FUNCTION(OP_ATAN, atan)
                    ARRAY_FUNCTION(OP_COSH, cosh)
                    ARRAY_FUNCTION(OP_SINH, sinh)
                    ARRAY_FUNCTION(OP_TANH, tanh)
                    ARRAY_FUNCTION(OP_ACOSH, acosh)
                    ARRAY_FUNCTION(OP_ASINH, asinh)
                    ARRAY_FUNCTION(OP_ATANH, atanh)
                    ARRAY_FUNCTION(OP_LOG, log)
                    ARRAY_FUNCTION(OP_LOG2, log2)
                    ARRAY_FUNCTION(OP_LOG10, log10)
                case OP_CBRT:
                    store(3, Vec(a.unaryExpr([](const T &x) { return x.cbrt(); })), I[2]);
                    return;
                case OP_ABS:
                    store(3, sp == 1 ? Vec(a.cwiseAbs()) : Vec(a.array().abs().matrix()), I[2]);
                    return;
                case OP_RECIP:
                    store(3, sp == 1 ? Vec(a.cwiseInverse()) : Vec(a.array().inverse().matrix()), I[2]);
                    return;
                case OP_POW:
                    store(3, k == 2 && sp == 1 ? Vec(a.array().square().matrix()) : k == 3 && sp == 1 ? Vec(a.array().cube().matrix()) : k == 2 ? Vec(a.cwiseAbs2()) : Vec(a.unaryExpr([k](const T &x) { return x.pow(k); })), I[2]);
                    return;
                case OP_ADDC:
                    store(3, Vec((a.array() + k).matrix()), I[2]);
                    return;
                case OP_SUBC:
                    store(3, Vec((a.array() - k).matrix()), I[2]);
                    return;
                case OP_CADD:
                    store(3, Vec((k + a.array()).matrix()), I[2]);
                    return;
                case OP_CSUB:
                    store(3, Vec((k - a.array()).matrix()), I[2]);
                    return;
                case OP_CDIV:
                    store(3, Vec((k / a.array()).matrix()), I[2]);
                    return;
                }
            break;
        }
        case OP_AZIP:
        {
            const long n = I[2];
            const bool pa = n > 0 && I[3 + n] >= 1000, pb = n > 0 && I[3 + 2 * n] >= 1000;
            if (pa || pb)
            {
                // a matrix of plain numbers with a matrix of numbers
                Eigen::Matrix<S, Eigen::Dynamic, 1> q(n);
                for (long i = 0; i < n; i++)
                    q[i] = S(c.D[I[(pa ? 3 + n : 3 + 2 * n) + i] - 1000]);
                const Vec a = vec(pa ? 3 + 2 * n : 3 + n, n);
                switch (I[1])
                {
                case OP_ADD:
                    store(3, pa ? Vec(q + a) : Vec(a + q), n);
                    return;
                case OP_SUB:
                    store(3, pa ? Vec(q - a) : Vec(a - q), n);
                    return;
                case OP_MUL:
                    store(3, pa ? Vec(q.cwiseProduct(a)) : Vec((a.array() * q.array()).matrix()), n);
                    return;
                case OP_DIV:
                    store(3, pa ? Vec((q.array() / a.array()).matrix()) : Vec((a.array() / q.array()).matrix()), n);
                    return;
                }
                break;
            }
            const Vec a = vec(3 + n, n), b = vec(3 + 2 * n, n);
            bool same = true;
            for (long i = 1; i < n; i++)
                same = same && I[3 + 2 * n + i] == I[3 + 2 * n];
            switch (I[1])
            {
            case OP_ADD:
                if (sp == 1)
                {
                    Vec r = a;
                    r += b;
                    store(3, r, n);
                }
                else
                    store(3, Vec(a + b), n);
                return;
            case OP_SUB:
                if (sp == 1)
                {
                    Vec r = a;
                    r -= b;
                    store(3, r, n);
                }
                else
                    store(3, Vec(a - b), n);
                return;
            case OP_MUL:
                if (sp == 1 && same)
                    store(3, n % 2 ? Vec(b[0] * a) : Vec(a * b[0]), n);
                else if (sp == 1)
                    store(3, Vec((a.array() * b.array()).matrix()), n);
                else
                    store(3, Vec(a.cwiseProduct(b)), n);
                return;
            case OP_DIV:
                if (sp == 1 && same)
                    store(3, Vec(a / b[0]), n);
                else if (sp == 1)
                    store(3, Vec((a.array() / b.array()).matrix()), n);
                else
                    store(3, Vec(a.cwiseQuotient(b)), n);
                return;
            case OP_ATAN2:
                store(3, Vec(a.binaryExpr(b, [](const T &x, const T &y) { using std::atan2; return atan2(x, y); })), n);
                return;
            case OP_HYPOT:
                store(3, Vec(a.binaryExpr(b, [](const T &x, const T &y) { using std::hypot; return hypot(x, y); })), n);
                return;
            }
            break;
        }
        case OP_AMATMUL:
        {
            const long m = I[1], q = I[2], n = I[3];
            const bool pa = I[4 + m * n] >= 1000, pb = I[4 + m * n + m * q] >= 1000;
            if (pa || pb)
            {
                // a matrix of plain numbers times a matrix of numbers, or the other way round
                const long at = pa ? 4 + m * n : 4 + m * n + m * q, h = pa ? m : q, w = pa ? q : n;
                Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> M(h, w);
                for (long i = 0; i < h * w; i++)
                    M(i / w, i % w) = S(c.D[I[at + i] - 1000]);
                Mat r;
                if (pa)
                {
                    const Mat b = mat(4 + m * n + m * q, q, n);
                    r = sp == 1 ? Mat(M.lazyProduct(b)) : Mat((b.transpose().lazyProduct(M.transpose())).transpose());
                }
                else
                {
                    const Mat a = mat(4 + m * n, m, q);
                    r = sp == 1 ? Mat(a.lazyProduct(M)) : Mat((M.transpose().lazyProduct(a.transpose())).transpose());
                }
                for (long i = 0; i < m * n; i++)
                    X.set(I[4 + i], T(r(i / n, i % n)));
                return;
            }
            const Mat a = mat(4 + m * n, m, q), b = mat(4 + m * n + m * q, q, n);
            Mat r = a.lazyProduct(b);
            if (sp == 1)
                r = a * b;
            if (m == 1 && n == 1 && sp == 2)
            {
                X.set(I[4], T(Vec(a.row(0).transpose()).dot(Vec(b.col(0)))));
                return;
            }
            for (long i = 0; i < m; i++)
                for (long j = 0; j < n; j++)
                    X.set(I[4 + i * n + j], T(r(i, j)));
            return;
        }
        case OP_ASUM:
            X.set(I[2], sp == 1 ? T(Mat(vec(3, I[1])).colwise().sum()(0, 0)) : T(vec(3, I[1]).sum()));
            return;
        case OP_APROD:
            X.set(I[2], sp == 1 ? T(Mat(vec(3, I[1])).colwise().prod()(0, 0)) : T(vec(3, I[1]).prod()));
            return;
        case OP_ADET:
            if (I[1] == 2)
            {
                const Eigen::Matrix<T, 2, 2> m = mat(3, 2, 2);
                X.set(I[2], T(m.determinant()));
            }
            else
            {
                const Eigen::Matrix<T, 3, 3> m = mat(3, 3, 3);
                X.set(I[2], sp == 1 ? T(m.transpose().eval().determinant()) : T(m.determinant()));
            }
            return;
        case OP_ACROSS:
        {
            using V3 = Eigen::Matrix<T, 3, 1>;
            const V3 a = vec(4, 3), b = vec(7, 3);
            store(1, Vec(a.cross(b)), 3);
            return;
        }
        case OP_ANORM:
            X.set(I[2], sp == 1 ? T(vec(3, I[1]).squaredNorm().sqrt()) : sp == 2 ? T(Mat(vec(3, I[1]).transpose()).norm()) : T(vec(3, I[1]).norm()));
            return;
        }
    }
#endif
#endif
    unsupported(c);
}

template <class T>
void observe_dense(Regs<T> &X, vector<Word> &O)
{
    using S = typename T::Scalar;
    for (auto &kv : X.m)
    {
        const T &a = *kv.second;
        O.push_back(Word(kv.first) | Word(ScalarInfo<S>::code) << 24 | Word(T::order()) << 32 | Word(T::static_size() + 1) << 40);
        O.push_back(biased(a.size()));
        const long n = a.data_length();
        O.push_back(Word(n) * (ScalarInfo<S>::code == 2 ? 2 : 1));
        for (long i = 0; i < n; i++)
            put(O, S(a.ptr()[i]));
    }
}

// ---- sparse numbers

template <class T>
void sparse_op(const Cmd &c, Regs<T> &X, vector<Word> &R)
{
    using S = typename T::Scalar;
    const auto &I = c.I;
    const long sp = I.empty() ? 0 : I[0];
    if (common(c, X, R))
        return;
    const S k = c.D.empty() ? S(0) : S(c.D[0]);
    switch (c.op)
    {
    case OP_SCONST:
        if (sp == 0)
            X.set(I[1], T::constant(k));
        else
            X.set(I[1], T(k));
        return;
    case OP_SVAR:
        X.set(I[1], T::variable(NAMES[I[3]], k));
        return;
    case OP_SDATA:
    {
        typename T::Data d;
        for (size_t t = 3; t < I.size(); t++)
            d[NAMES[I[t]]] = S(c.D[1 + t - 3]);
        X.set(I[1], T(k, d));
        return;
    }
    case OP_SGET:
    {
        const T &a = X[I[1]];
        R.push_back(biased(a.size()));
        put(R, a.f());
        for (int i = 0; i <= UNIVERSE; i++)
            put(R, a.d(NAMES[i]));
        R.push_back(biased(a.size()));
        return;
    }
    case OP_EVAL:
    {
        typename T::Data d;
        for (size_t t = 2; t < I.size(); t++)
            d[NAMES[I[t]]] = S(c.D[t - 2]);
        put(R, X[I[1]].eval(d));
        return;
    }
    }
    unsupported(c);
}

template <class T>
void observe_sparse(Regs<T> &X, vector<Word> &O)
{
    using S = typename T::Scalar;
    for (auto &kv : X.m)
    {
        const T &a = *kv.second;
        O.push_back(Word(kv.first) | Word(1) << 16 | Word(ScalarInfo<S>::code) << 24 | Word(1) << 32);
        O.push_back(biased(a.size()));
        O.push_back(Word(1 + UNIVERSE) * (ScalarInfo<S>::code == 2 ? 2 : 1));
        put(O, a.f());
        for (int i = 0; i < UNIVERSE; i++)
            put(O, a.d(NAMES[i]));
    }
}

using Runner = void (*)(const vector<Cmd> &, Out &);

template <class T>
void execute(const Cmd &c, Regs<T> &X, vector<Word> &R, int &outcome)
{
    if (c.op == OP_RESET)
        X.m.clear();
    else
        TRY
        {
            if constexpr (IsSparse<T>::value)
                sparse_op(c, X, R);
            else
                dense_op(c, X, R);
        }
    CATCH
}

// While alive, other threads perform the same history over and over on numbers of their own.
template <class T>
struct Company
{
    std::atomic<bool> stop{false};
    vector<std::thread> threads;
    Company(const vector<Cmd> &cmds, int n)
    {
        for (int i = 0; i < n; i++)
            threads.emplace_back([&, i]
                                 {
                                     for (long k = i; !stop; k++)
                                     {
                                         Regs<T> X;
                                         for (const Cmd &c : cmds)
                                         {
                                             vector<Word> R;
                                             int outcome = 0;
                                             if (stop)
                                                 break;
                                             execute(c, X, R, outcome);
                                         }
                                     } });
    }
    ~Company()
    {
        stop = true;
        for (auto &t : threads)
            t.join();
    }
};

template <class T>
void run(const vector<Cmd> &cmds, Out &out)
{
    static const int n = std::getenv("COMPANY") ? std::atoi(std::getenv("COMPANY")) : 0;
    std::unique_ptr<Company<T>> company;
    Regs<T> X;
    for (const Cmd &c : cmds)
    {
        if (n && &c != cmds.data() && !company)
            company.reset(new Company<T>(cmds, n));
        vector<Word> R, O;
        int outcome = 0;
        execute(c, X, R, outcome);
        if constexpr (IsSparse<T>::value)
            observe_sparse(X, O);
        else
            observe_dense(X, O);
        out.event(c, outcome, R, O, long(X.m.size()));
    }
}

std::map<std::string, Runner> &runners();
struct Register
{
    Register(const char *name, Runner r) { runners()[name] = r; }
};
