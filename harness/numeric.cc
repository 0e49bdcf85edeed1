// Special functions, vector arithmetic and normalisation of scores, on given numbers.
#include "core.hpp"
#include <cmath>
#include <functional>
#include <thread>
#include <distributions/random.hpp>
#include <distributions/special.hpp>
#include <distributions/vector.hpp>
#include <distributions/vector_math.hpp>

namespace h {
namespace D = distributions;

static bool nan_or_inf(float x) {
    uint32_t b;
    memcpy(&b, &x, 4);
    return ((b >> 23) & 0xff) == 0xff;
}
// consecutive integers for consecutive floats
static int64_t place(float x) {
    int32_t b;
    memcpy(&b, &x, 4);
    return b < 0 ? -(int64_t)(b & 0x7fffffff) : b;
}
static float at(int64_t p) {
    uint32_t b = p < 0 ? 0x80000000u | (uint32_t)(-p) : (uint32_t)p;
    float x;
    memcpy(&x, &b, 4);
    return x;
}

static float fn1(const std::string & f, float x) {
    if (f == "fast_log") return D::fast_log(x);
    if (f == "eric_log") return D::eric_log(x);
    if (f == "fast_exp") return D::fast_exp(x);
    if (f == "fast_lgamma") return D::fast_lgamma(x);
    if (f == "fast_lgamma_nu") return D::fast_lgamma_nu(x);
    throw std::logic_error("harness: no function " + f);
}

struct Cell {
    double a, w, c[4];
    float lo, hi;
    bool rel;
    long n;
    float rmin, rmax, xmin, xmax;
    long bad;
    float xbad;
};
template<class F> static void sweep(Cell & c, int64_t step, F f) {
    int64_t from = place(c.lo), to = place(c.hi);
    double mn = 1e300, mx = -1e300;
    c.n = c.bad = 0;
    c.xmin = c.xmax = c.xbad = c.lo;
    for (int64_t p = from; p < to; p += step) {
        float x = at(p);
        float y = f(x);
        ++c.n;
        if (nan_or_inf(y)) { ++c.bad; c.xbad = x; continue; }
        double t = ((double)x - c.a) / c.w;
        double P = ((c.c[3] * t + c.c[2]) * t + c.c[1]) * t + c.c[0];
        double r = c.rel ? (double)y / P - 1 : (double)y - P;
        if (r < mn) { mn = r; c.xmin = x; }
        if (r > mx) { mx = r; c.xmax = x; }
    }
    c.rmin = mn; c.rmax = mx;
}

typedef std::vector<float> Vec;
struct Field {  // an array at a chosen distance from a 32-byte boundary, in a guarded field
    D::VectorFloat mem;
    size_t off, n;
    Vec was;
    Field(const Vec & v, size_t offset) : mem(v.size() + 64, 1234.5f), off(16 + offset), n(v.size()) {
        std::copy(v.begin(), v.end(), mem.begin() + off);
        was.assign(mem.begin(), mem.end());
    }
    float * p() { return mem.data() + off; }
    bool around() const {
        for (size_t i = 0; i < mem.size(); ++i)
            if ((i < off || i >= off + n) && memcmp(&mem[i], &was[i], 4)) return false;
        return true;
    }
    bool same() const { return !memcmp(mem.data(), was.data(), mem.size() * 4); }
    Vec get() const { return Vec(mem.begin() + off, mem.begin() + off + n); }
};

struct NumericRunner : Runner {
    bool cmd(const Tok & t, Out & o) {
        const std::string & c = t[0];
        if (c == "fn") return fn(t, o);
        if (c == "sweep") return sweeps(t, o);
        if (c == "vec") return vec(t, o);
        if (c == "stirling") {  // fill: what the result vector holds before
            size_t n = i64(t.at(2)), fill = i64(t.at(3));
            o.str("n", t.at(2));
            if (t.at(1) == "vector") {
                std::vector<float> r(fill, 7.f);
                D::get_log_stirling1_row(n, r);
                o.ns("r", r);
            } else if (t.at(1) == "aligned") {
                D::VectorFloat r(fill, 7.f);
                D::get_log_stirling1_row(n, r);
                o.ns("r", r);
            } else {
                o.ns("r", D::log_stirling1_row(n));
            }
            return true;
        }
        if (c == "bigrow") {  // a long row, reported at chosen places
            size_t n = i64(t.at(1));
            std::vector<float> r;
            D::get_log_stirling1_row(n, r);
            o.str("n", t.at(1));
            o.i("len", r.size());
            std::vector<long> ks;
            std::vector<float> ys;
            for (size_t i = 2; i < t.size(); ++i) {
                ks.push_back(i64(t[i]));
                ys.push_back(r.at(ks.back()));
            }
            o.ns("k", ks);
            o.ns("r", ys);
            size_t bad = 0;
            for (size_t k = 1; k < r.size(); ++k) {
                uint32_t b;  // a non-finite number, however floats are compared
                memcpy(&b, &r[k], 4);
                bad += ((b >> 23) & 0xff) == 0xff;
            }
            o.i("bad", bad);
            return true;
        }
        if (c == "scores") {
            std::vector<float> s = floats(t.size() > 3 ? t[3] : "");
            o.str("f", t.at(1));
            o.xs("s", s);
            if (t.at(2) == "aligned") {
                D::VectorFloat v(s.size());
                std::copy(s.begin(), s.end(), v.begin());
                return scores(t.at(1), v, s, o);
            }
            std::vector<float> v(s);
            return scores(t.at(1), v, s, o);
        }
        return false;
    }
    template<class V> bool scores(const std::string & f, V & v, const Vec & s, Out & o) {
        if (f == "lse") {
            o.n("r", D::log_sum_exp(v));
            o.i("same", s.empty() || !memcmp(v.data(), s.data(), 4 * s.size()));
        } else if (f == "likelihoods") {
            o.n("total", D::scores_to_likelihoods(v));
            o.ns("r", v);
        } else if (f == "probs") {
            D::scores_to_probs(v);
            o.ns("r", v);
        } else {
            return false;
        }
        return true;
    }
    bool fn(const Tok & t, Out & o) {
        const std::string & f = t.at(1);
        o.str("f", f);
        std::string xs = "[", ys = "[";
        for (size_t i = 2; i < t.size(); ++i) {
            Vec x = floats(t[i]);
            float y;
            if (f == "fast_log_sum_exp") y = D::fast_log_sum_exp(x.at(0), x.at(1));
            else if (f == "log_sum_exp") y = D::log_sum_exp(x.at(0), x.at(1));
            else if (f == "log_beta") y = D::log_beta(x.at(0), x.at(1));
            else if (f == "fast_log_beta") y = D::fast_log_beta(x.at(0), x.at(1));
            else if (f == "log_binom") y = D::log_binom(x.at(0), x.at(1));
            else if (f == "fast_log_binom") y = D::fast_log_binom(x.at(0), x.at(1));
            else if (f == "fast_log_factorial") y = D::fast_log_factorial(u32(t[i]));
            else if (f == "lmultigamma") y = D::lmultigamma((unsigned)x.at(0), x.at(1));
            else if (f == "score_student_t") y = D::score_student_t(x.at(0), x.at(1), x.at(2), x.at(3));
            else if (f == "fast_score_student_t") y = D::fast_score_student_t(x.at(0), x.at(1), x.at(2), x.at(3));
            else y = fn1(f, x.at(0));
            if (i > 2) { xs += ","; ys += ","; }
            xs += f == "fast_log_factorial" ? "[" + Out::quote(t[i]) + "]" : Out::nums(x);
            ys += Out::quote(num(y));
        }
        o.raw("x", xs + "]");
        o.raw("y", ys + "]");
        return true;
    }
    // sweep f step abs|rel lo:hi:a:w:c0:c1:c2:c3 ...   every step-th float of [lo, hi) against a cubic
    bool sweeps(const Tok & t, Out & o) {
        const std::string & f = t.at(1);
        int64_t step = i64(t.at(2));
        bool rel = t.at(3) == "rel";
        std::vector<Cell> cs;
        std::vector<Tok> raw;
        for (size_t i = 4; i < t.size(); ++i) {
            Tok p = split(t[i], ':');
            Cell c;
            c.lo = f32(p.at(0)); c.hi = f32(p.at(1));
            c.a = strtod(p.at(2).c_str(), NULL); c.w = strtod(p.at(3).c_str(), NULL);
            for (int k = 0; k < 4; ++k) c.c[k] = strtod(p.at(4 + k).c_str(), NULL);
            c.rel = rel;
            cs.push_back(c);
            raw.push_back(p);
        }
        size_t T = 8;
        std::vector<std::thread> ts;
        for (size_t k = 0; k < T; ++k) ts.push_back(std::thread([&cs, &f, step, k, T]() {
            for (size_t i = k; i < cs.size(); i += T) {
                if (f == "fast_log") sweep(cs[i], step, [](float x) { return D::fast_log(x); });
                else if (f == "fast_exp") sweep(cs[i], step, [](float x) { return D::fast_exp(x); });
                else if (f == "fast_lgamma") sweep(cs[i], step, [](float x) { return D::fast_lgamma(x); });
                else if (f == "fast_lgamma_nu") sweep(cs[i], step, [](float x) { return D::fast_lgamma_nu(x); });
                else cs[i].n = -1;
            }
        }));
        for (auto & x : ts) x.join();
        o.str("f", f);
        o.str("mode", t[3]);
        std::string s = "[";
        for (size_t i = 0; i < cs.size(); ++i) {
            Cell & c = cs[i];
            Out e;
            e.n("lo", c.lo); e.n("hi", c.hi);
            e.str("a", raw[i][2]); e.str("w", raw[i][3]);
            std::vector<double> k(c.c, c.c + 4);
            e.ns("c", k);
            e.i("n", c.n); e.i("bad", c.bad); e.n("xbad", c.xbad);
            e.n("rmin", c.rmin); e.n("rmax", c.rmax); e.n("xmin", c.xmin); e.n("xmax", c.xmax);
            if (i) s += ",";
            s += e.done();
        }
        o.raw("cells", s + "]");
        return true;
    }
    // vec op off:off:off io=.. in1=.. in2=.. s=..
    bool vec(const Tok & t, Out & o) {
        const std::string & c = t.at(1);
        Tok of = split(t.at(2), ':');
        KV k(t, 3);
        Field io(floats(k["io"]), i64(of.at(0))), a(floats(k["in1"]), i64(of.at(1))), b(floats(k["in2"]), i64(of.at(2)));
        float s = k.count("s") ? f32(k["s"]) : 0;
        o.str("f", c);
        o.xs("io", io.get()); o.xs("a", a.get()); o.xs("b", b.get()); o.n("s", (double)s);
        size_t n = io.n;
        bool out = true, scalar = false;
        float r = 0;
        if (c == "zero") D::vector_zero(n, io.p());
        else if (c == "shift") D::vector_shift(n, io.p(), s);
        else if (c == "scale") D::vector_scale(n, io.p(), s);
        else if (c == "negate") D::vector_negate(n, io.p());
        else if (c == "add") D::vector_add(n, io.p(), a.p());
        else if (c == "negate_and_add") D::vector_negate_and_add(n, io.p(), a.p());
        else if (c == "add_add") D::vector_add_add(n, io.p(), a.p(), b.p());
        else if (c == "add_subtract") D::vector_add_subtract(n, io.p(), a.p(), b.p());
        else if (c == "add_subtract1") D::vector_add_subtract(n, io.p(), s, b.p());
        else if (c == "multiply_add") D::vector_multiply_add(n, io.p(), a.p(), b.p());
        else if (c == "exp") D::vector_exp(n, io.p());
        else if (c == "log") D::vector_log(n, io.p());
        else if (c == "lgamma") D::vector_lgamma(n, io.p());
        else if (c == "lgamma_nu") D::vector_lgamma_nu(n, io.p());
        else if (c == "exp2") D::vector_exp(n, a.p(), io.p());
        else if (c == "log2") D::vector_log(n, a.p(), io.p());
        else if (c == "lgamma2") D::vector_lgamma(n, a.p(), io.p());
        else if (c == "lgamma_nu2") D::vector_lgamma_nu(n, a.p(), io.p());
        else {
            scalar = true;
            out = false;
            if (c == "min") r = D::vector_min(n, io.p());
            else if (c == "max") r = D::vector_max(n, io.p());
            else if (c == "sum") r = D::vector_sum(n, io.p());
            else if (c == "dot") r = D::vector_dot(n, io.p(), a.p());
            else return false;
        }
        if (scalar) o.n("r", r);
        else o.ns("r", io.get());
        o.i("kept", (out ? io.around() : io.same()) && a.same() && b.same());
        return true;
    }
};
static Runner * make() { return new NumericRunner(); }
static Register reg("num", make);

}  // namespace h
