// Samplers of random.hpp.  Every call runs on an engine whose next output is known.
#include "core.hpp"
#include <cmath>
#include <eigen3/Eigen/Dense>
#include <distributions/random.hpp>
#include <distributions/vector.hpp>
#include <distributions/../../distributions/rng_cc.hpp>

namespace h {
namespace D = distributions;

static const uint64_t M = 2147483647ULL, A = 16807ULL;
static uint64_t mulmod(uint64_t a, uint64_t b) { return (unsigned __int128)a * b % M; }
static uint64_t inverse(uint64_t a) {
    uint64_t r = 1, e = M - 2;
    for (; e; e >>= 1, a = mulmod(a, a)) if (e & 1) r = mulmod(r, a);
    return r;
}
static const uint64_t AI = inverse(A);

struct SampRunner : Runner {
    D::rng_t rng;
    bool aligned = false;
    std::string random_state() const { std::ostringstream s; s << rng; return s.str(); }

    void next_is(uint64_t x) { rng.seed((unsigned long)mulmod(AI, x)); }
    float peek() {
        D::rng_t r = rng;
        std::uniform_real_distribution<float> u(0.f, 1.f);
        return u(r);
    }
    double peekd() {
        D::rng_t r = rng;
        std::uniform_real_distribution<double> u(0., 1.);
        return u(r);
    }
    static std::vector<float> tail(const Tok & t, size_t from) {
        std::vector<float> v;
        for (size_t i = from; i < t.size(); ++i) v.push_back(f32(t[i]));
        return v;
    }
    // one discrete draw; result index (for pairs: i * n + j)
    template<class V> long draw(const Tok & t, size_t k, const V & v0, float * prob = NULL) {
        const std::string & c = t.at(k);
        V v(v0);
        if (c == "disc") return D::sample_discrete(rng, v.size(), v.data());
        if (c == "lik") return D::sample_from_likelihoods(rng, v);
        if (c == "likt") return D::sample_from_likelihoods(rng, v, f32(t.at(k + 1)));
        if (c == "probs") return D::sample_from_probs(rng, v);
        if (c == "scores") return D::sample_from_scores(rng, v);
        if (c == "scoreso") return D::sample_from_scores_overwrite(rng, v);
        if (c == "sprob") {
            std::pair<size_t, float> r = D::sample_prob_from_scores_overwrite(rng, v);
            if (prob) *prob = r.second;
            return r.first;
        }
        if (c == "bern") return D::sample_bernoulli(rng, v.at(0));
        if (c == "int") return D::sample_int(rng, (int)v.at(0), (int)v.at(1));
        if (c == "cat") {
            std::vector<double> d;
            for (size_t i = k + 1; i < t.size(); ++i) d.push_back(strtod(t[i].c_str(), NULL));
            return std_wrapper::std_random_categorical(rng, d.size(), d.data());
        }
        if (c == "urn" || c == "pair") {
            std::vector<long> u;
            for (size_t i = 0; i < v.size(); ++i) u.push_back(i);
            if (c == "urn") return D::sample_from_urn(rng, u);
            std::pair<long, long> p = D::sample_pair_from_urn(rng, u);
            return p.first * (long)u.size() + p.second;
        }
        throw ScriptError("no sampler " + c);
    }
    long any(const Tok & t, size_t k, float * prob = NULL) {
        std::vector<float> v = tail(t, k + (t.at(k) == "likt" ? 2 : 1));
        if (!aligned) return draw(t, k, v, prob);
        D::VectorFloat w(v.size()); std::copy(v.begin(), v.end(), w.begin());
        return draw(t, k, w, prob);
    }
    void args(Out & o, const Tok & t, size_t k) {
        o.str("c", t.at(k));
        size_t from = k + 1;
        if (t[k] == "likt") { o.n("T", (double)f32(t.at(from))); ++from; }
        if (t[k] == "int") { o.i("lo", i64(t.at(from))); o.i("hi", i64(t.at(from + 1))); return; }
        if (t[k] == "cat") {
            std::vector<double> d;
            for (size_t i = from; i < t.size(); ++i) d.push_back(strtod(t[i].c_str(), NULL));
            o.ns("p", d);
        } else o.xs("p", tail(t, from));
    }
    static void list(Out & o, const char * key, const std::vector<long> & v) {
        std::string r = "[";
        for (size_t i = 0; i < v.size(); ++i) { if (i) r += ","; r += std::to_string(v[i]); }
        o.raw(key, r + "]");
    }

    // ---- continuous samplers: counts of draws at or below thresholds
    typedef Eigen::VectorXf V;
    typedef Eigen::MatrixXf Mx;
    static V vec(const std::string & s) {
        std::vector<float> f = floats(s);
        V v(f.size());
        for (size_t i = 0; i < f.size(); ++i) v(i) = f[i];
        return v;
    }
    static Mx mat(const std::string & s) {
        std::vector<float> f = floats(s);
        int d = (int)std::lround(std::sqrt((double)f.size()));
        Mx m(d, d);
        for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) m(i, j) = f[i * d + j];
        return m;
    }
    double one(const std::string & d, const KV & k) {
        auto p = [&](const char * n) { return f32(k.get(n)); };
        if (d == "unif") return D::sample_unif01(rng);
        if (d == "stdnormal") return D::sample_std_normal(rng);
        if (d == "normal") return D::sample_normal(rng, p("mean"), p("var"));
        if (d == "chisq") return D::sample_chisq(rng, p("nu"));
        if (d == "gamma") return D::sample_gamma(rng, p("a"), p("b"));
        if (d == "gamma1") return D::sample_gamma(rng, p("a"));
        if (d == "beta") return D::sample_beta(rng, p("a"), p("b"));
        if (d == "betas") return D::sample_beta_safe(rng, p("a"), p("b"), p("min"));
        if (d == "poisson") return D::sample_poisson(rng, p("mean"));
        if (d == "nb") return D::sample_negative_binomial(rng, p("p"), i64(k.get("rr")));
        if (d == "hnormal") return std_wrapper::std_random_normal(rng, p("mean"), p("var"));
        if (d == "hchisq") return std_wrapper::std_random_chisq(rng, p("nu"));
        if (d == "hgamma") return std_wrapper::std_random_gamma(rng, p("a"), p("b"));
        if (d == "hpoisson") return std_wrapper::std_random_poisson(rng, p("mean"));
        if (d == "dir" || d == "dirs" || d == "hdir") {
            std::vector<float> a = floats(k.get("alphas")), w = floats(k.get("w")), r(a.size());
            std::vector<double> rd(a.begin(), a.end()), od(a.size());
            if (d == "dir") D::sample_dirichlet(rng, a.size(), a.data(), r.data());
            else if (d == "dirs") D::sample_dirichlet_safe(rng, a.size(), a.data(), r.data(), p("min"));
            else { std_wrapper::std_random_dirichlet(rng, rd.size(), rd.data(), od.data()); r.assign(od.begin(), od.end()); }
            double s = 0, all = 0;
            for (size_t i = 0; i < r.size(); ++i) {
                s += w[i] * r[i];
                all += r[i];
                if (!(r[i] >= 0) || (a[i] == 0 && d == "dir" && r[i] != 0)) return NAN;
                if (d == "dirs" && !(r[i] >= p("min") / (1 + p("min") * r.size()) * 0.999)) return NAN;
            }
            return std::abs(all - 1) < 1e-5 ? s : NAN;
        }
        V w = vec(k.get("w"));
        if (d == "mvn") return w.dot(D::sample_multivariate_normal(vec(k.get("mu")), mat(k.get("S")), rng));
        if (d == "wishart") return w.dot(D::sample_wishart(p("nu"), mat(k.get("S")), rng) * w);
        if (d == "iwishart") return w.dot(D::sample_inverse_wishart(p("nu"), mat(k.get("S")), rng) * w);
        if (d == "niwmu" || d == "niwcov" || d == "niwx") {
            std::pair<V, Mx> r = D::sample_normal_inverse_wishart(vec(k.get("mu")), p("lambda"), mat(k.get("S")), p("nu"), rng);
            if (d == "niwmu") return w.dot(r.first);
            if (d == "niwcov") return w.dot(r.second * w);
            return w.dot(D::sample_multivariate_normal(r.first, r.second, rng));
        }
        throw ScriptError("no distribution " + d);
    }

    bool cmd(const Tok & t, Out & o) {
        const std::string & c = t[0];
        if (c == "state") { rng.seed((unsigned long)u32(t.at(1))); o.e_("other"); }
        else if (c == "next") { next_is(u32(t.at(1))); o.e_("other"); }       // next engine output
        else if (c == "vec") { aligned = t.at(1) == "aligned"; o.e_("other"); }
        else if (c == "grid") {  // grid n sampler args : u runs over (k + 1/2) / n
            long n = i64(t.at(1));
            std::vector<long> counts(i64(t.at(2)));
            for (long k = 0; k < n; ++k) {
                next_is(1 + (uint64_t)((k + .5) / n * (M - 2)));
                long r = any(t, 3);
                if (t[3] == "int") r -= i64(t[4]);
                if (r < 0 || r >= (long)counts.size()) { o.i("out", r); break; }
                ++counts[r];
            }
            o.i("n", n);
            args(o, t, 3);
            list(o, "r", counts);
        }
        else if (c == "freq") {  // freq n size sampler args : n draws in a row
            long n = i64(t.at(1));
            std::vector<long> counts(i64(t.at(2)));
            for (long k = 0; k < n; ++k) {
                long r = any(t, 3);
                if (t[3] == "int") r -= i64(t[4]);
                if (r < 0 || r >= (long)counts.size()) { o.i("out", r); break; }
                ++counts[r];
            }
            o.i("n", n);
            args(o, t, 3);
            list(o, "r", counts);
        }
        else if (c == "bigurn") {  // bigurn how items n lo mods: too many items to list
            const std::string how = t.at(1);
            long items = i64(t.at(2)), n = i64(t.at(3)), lo = i64(t.at(4));
            std::vector<long> mods;
            for (auto & s : split(t.at(5), ',')) mods.push_back(i64(s));
            std::vector<int> urn(how == "int" ? 0 : items);
            for (size_t i = 0; i < urn.size(); ++i) urn[i] = i;
            std::vector<std::vector<long>> res;
            for (long m : mods) res.push_back(std::vector<long>(m));
            std::vector<long> part(10);
            long out = 0, same = 0;
            for (long k = 0; k < n; ++k) {
                long x;
                if (how == "int") x = (long)D::sample_int(rng, (int)lo, (int)(lo + items - 1)) - lo;
                else if (how == "urn") x = D::sample_from_urn(rng, urn);
                else {
                    std::pair<int, int> p = D::sample_pair_from_urn(rng, urn);
                    same += p.first == p.second;
                    x = how == "first" ? p.first : p.second;
                }
                if (x < 0 || x >= items) { ++out; continue; }
                for (size_t j = 0; j < mods.size(); ++j) ++res[j][x % mods[j]];
                ++part[(int64_t)x * 10 / items];
            }
            o.str("how", how); o.i("items", items); o.i("n", n); o.i("bad", out); o.i("same", same);
            list(o, "part", part);
            list(o, "mods", mods);
            std::vector<long> flat;
            for (auto & v : res) flat.insert(flat.end(), v.begin(), v.end());
            list(o, "res", flat);
        }
        else if (c == "sfs") {  // sfs i scores...
            std::vector<float> v = tail(t, 2);
            o.i("i", i64(t.at(1)));
            o.xs("p", v);
            D::rng_t before = rng, burnt = rng;
            if (aligned) { D::VectorFloat w(v.size()); std::copy(v.begin(), v.end(), w.begin()); o.n("r", D::score_from_scores_overwrite(rng, i64(t[1]), w)); }
            else o.n("r", D::score_from_scores_overwrite(rng, i64(t[1]), v));
        }
        else if (c == "cdf") {  // cdf n dist thresholds key=value...
            long n = i64(t.at(1));
            KV k(t, 4);
            std::vector<double> th;
            for (auto & s : split(t.at(3), ',')) th.push_back(strtod(s.c_str(), NULL));
            std::vector<long> counts(th.size());
            long bad = 0;
            double lo = INFINITY, hi = -INFINITY;
            for (long i = 0; i < n; ++i) {
                double x = one(t[2], k);
                std::string s = num(x);
                if (s == "nan" || s == "inf" || s == "-inf") { ++bad; continue; }
                lo = x < lo ? x : lo;
                hi = x > hi ? x : hi;
                for (size_t j = 0; j < th.size(); ++j) counts[j] += x <= th[j];
            }
            o.i("n", n); o.str("d", t[2]); o.i("bad", bad);
            o.ns("th", th);
            for (auto & kv : k) {
                if (kv.first == "alphas" || kv.first == "w" || kv.first == "mu" || kv.first == "S") o.ns(kv.first.c_str(), floats(kv.second));
                else o.n(kv.first.c_str(), f32(kv.second));
            }
            o.n("min_seen", lo); o.n("max_seen", hi);
            list(o, "r", counts);
        }
        else {
            args(o, t, 0);
            o.e_("draw");
            args(o, t, 0);
            if (c == "cat") o.n("u", peekd()); else o.n("u", peek());
            float prob = -1;
            long r = any(t, 0, &prob);
            if (c == "int") r -= i64(t[1]);
            o.i("r", r);
            if (c == "sprob") o.n("q", prob);
        }
        return true;
    }
};
static Runner * make_samp() { return new SampRunner(); }
static Register r_samp("samp", &make_samp);
}  // namespace h
