// Generic runner over one model: groups, scorers, samplers and mixtures.
#pragma once
#include "core.hpp"
#include <cmath>
#include <distributions/common.hpp>
#include <distributions/random.hpp>
#include <distributions/mixture.hpp>
#include <distributions/models/bb.hpp>
#include <distributions/models/dd.hpp>
#include <distributions/models/dpd.hpp>
#include <distributions/models/gp.hpp>
#include <distributions/models/bnb.hpp>
#include <distributions/models/nich.hpp>
#include <distributions/models/niw.hpp>
#include <distributions/io/protobuf.hpp>

namespace h {
namespace D = distributions;
namespace pb = ::protobuf::distributions;

template<class F> struct Names;

// ---- values -------------------------------------------------------------
template<class V> struct Val;
template<> struct Val<bool> {
    static bool in(const std::string & s) { return s == "1"; }
    static std::string out(bool v) { return Out::quote(num(v)); }
};
template<> struct Val<int> {
    static int in(const std::string & s) { return i64(s); }
    static std::string out(int v) { return Out::quote(num(v)); }
};
template<> struct Val<uint32_t> {
    static uint32_t in(const std::string & s) { return u32(s); }
    static std::string out(uint32_t v) { return Out::quote(num(v)); }
};
template<> struct Val<float> {
    static float in(const std::string & s) { return f32(s); }
    static std::string out(float v) { return Out::quote(num(v)); }
};
template<int d> struct Val<Eigen::Matrix<float, d, 1>> {
    typedef Eigen::Matrix<float, d, 1> V;
    static V in(const std::string & s) {
        std::vector<float> f = floats(s);
        V v;
        v.resize(f.size(), Eigen::NoChange);
        for (size_t i = 0; i < f.size(); ++i) v(i) = f[i];
        return v;
    }
    static std::string out(const V & v) { return Out::nums(v); }
};

// ---- shared / group messages ---------------------------------------------
template<class M> struct Msg;
template<> struct Msg<D::BetaBernoulli> {
    typedef pb::BetaBernoulli P;
    static void in(P::Shared & m, const KV & k) { m.set_alpha(f32(k.get("alpha"))); m.set_beta(f32(k.get("beta"))); }
    static void out(Out & o, const P::Shared & m) { o.n("alpha", m.alpha()); o.n("beta", m.beta()); }
    static void out(Out & o, const P::Group & m) { o.n("heads", (long)m.heads()); o.n("tails", (long)m.tails()); }
};
template<int n> struct Msg<D::DirichletDiscrete<n>> {
    typedef pb::DirichletDiscrete P;
    static void in(P::Shared & m, const KV & k) { for (float f : floats(k.get("alphas"))) m.add_alphas(f); }
    static void out(Out & o, const P::Shared & m) { o.ns("alphas", m.alphas()); }
    static void out(Out & o, const P::Group & m) {
        std::vector<long> c(m.counts().begin(), m.counts().end());
        o.ns("counts", c);
    }
};
template<> struct Msg<D::DirichletProcessDiscrete> {
    typedef pb::DirichletProcessDiscrete P;
    static void in(P::Shared & m, const KV & k) {
        m.set_gamma(f32(k.get("gamma"))); m.set_alpha(f32(k.get("alpha")));
        for (auto & s : split(k.get("values"), ',')) m.add_values(u32(s));
        for (auto & s : split(k.get("betas"), ',')) m.add_betas(f32(s));
        for (auto & s : split(k.get("counts"), ',')) m.add_counts(i64(s));
    }
    static void out(Out & o, const P::Shared & m) {
        o.n("gamma", m.gamma()); o.n("alpha", m.alpha());
        o.ns("values", m.values()); o.ns("betas", m.betas());
        std::vector<long> c(m.counts().begin(), m.counts().end());
        o.ns("counts", c);
    }
    static void out(Out & o, const P::Group & m) {
        o.ns("keys", m.keys());
        std::vector<long> c(m.values().begin(), m.values().end());
        o.ns("values", c);
    }
};
template<> struct Msg<D::GammaPoisson> {
    typedef pb::GammaPoisson P;
    static void in(P::Shared & m, const KV & k) { m.set_alpha(f32(k.get("alpha"))); m.set_inv_beta(f32(k.get("inv_beta"))); }
    static void out(Out & o, const P::Shared & m) { o.n("alpha", m.alpha()); o.n("inv_beta", m.inv_beta()); }
    static void out(Out & o, const P::Group & m) {
        o.n("count", (long)m.count()); o.n("sum", (long)m.sum()); o.n("log_prod", m.log_prod());
    }
};
template<> struct Msg<D::BetaNegativeBinomial> {
    typedef pb::BetaNegativeBinomial P;
    static void in(P::Shared & m, const KV & k) {
        m.set_alpha(f32(k.get("alpha"))); m.set_beta(f32(k.get("beta"))); m.set_r(i64(k.get("r")));
    }
    static void out(Out & o, const P::Shared & m) { o.n("alpha", m.alpha()); o.n("beta", m.beta()); o.n("r", (long)m.r()); }
    static void out(Out & o, const P::Group & m) { o.n("count", (long)m.count()); o.n("sum", (long)m.sum()); }
};
template<> struct Msg<D::NormalInverseChiSq> {
    typedef pb::NormalInverseChiSq P;
    static void in(P::Shared & m, const KV & k) {
        m.set_mu(f32(k.get("mu"))); m.set_kappa(f32(k.get("kappa")));
        m.set_sigmasq(f32(k.get("sigmasq"))); m.set_nu(f32(k.get("nu")));
    }
    static void out(Out & o, const P::Shared & m) {
        o.n("mu", m.mu()); o.n("kappa", m.kappa()); o.n("sigmasq", m.sigmasq()); o.n("nu", m.nu());
    }
    static void out(Out & o, const P::Group & m) {
        o.n("count", (long)m.count()); o.n("mean", m.mean()); o.n("ctv", m.count_times_variance());
    }
};
template<int d> struct Msg<D::NormalInverseWishart<d>> {
    typedef pb::NormalInverseWishart P;
    static void in(P::Shared & m, const KV & k) {
        for (float f : floats(k.get("mu"))) m.add_mu(f);
        for (float f : floats(k.get("psi"))) m.add_psi(f);
        m.set_kappa(f32(k.get("kappa"))); m.set_nu(f32(k.get("nu")));
    }
    static void out(Out & o, const P::Shared & m) {
        o.ns("mu", m.mu()); o.n("kappa", m.kappa()); o.ns("psi", m.psi()); o.n("nu", m.nu());
    }
    static void out(Out & o, const P::Group & m) {
        o.n("count", (long)m.count()); o.ns("sum_x", m.sum_x()); o.ns("sum_xxt", m.sum_xxt());
    }
};

// ---- optional parts of a model --------------------------------------------
template<class S, class G>
auto plus_group(const S & s, const G & g, S & out, int) -> decltype(s.plus_group(g), bool()) {
    out = s.plus_group(g);
    return true;
}
template<class S, class G> bool plus_group(const S &, const G &, S &, long) { return false; }

template<class M> struct Scored {  // models with a Scorer; one is prepared again and again
    typename M::Scorer sc;
    float eval(const typename M::Shared & s, const typename M::Group & g, const typename M::Value & v, D::rng_t & r) {
        sc.init(s, g, r);
        return sc.eval(s, v, r);
    }
};
template<> struct Scored<D::BetaNegativeBinomial> {
    typedef D::BetaNegativeBinomial M;
    float eval(const M::Shared & s, const M::Group & g, const M::Value & v, D::rng_t & r) {
        return g.score_value(s, v, r);
    }
};

template<class M> struct Mixes {
    typedef typename M::SmallMixture Small;
    typedef typename M::FastMixture Fast;
};
template<int d> struct Mixes<D::NormalInverseWishart<d>> {
    typedef D::MixtureSlave<D::NormalInverseWishart<d>> Small;
    typedef D::MixtureSlave<D::NormalInverseWishart<d>> Fast;
};

template<class M>
struct MixBase {
    typedef typename M::Shared Shared;
    typedef typename M::Group Group;
    typedef typename M::Value Value;
    virtual ~MixBase() {}
    virtual std::vector<Group> & groups() = 0;
    virtual void init(const Shared &, D::rng_t &) = 0;
    virtual void add_group(const Shared &, D::rng_t &) = 0;
    virtual void remove_group(const Shared &, size_t) = 0;
    virtual void add_value(const Shared &, size_t, const Value &, D::rng_t &) = 0;
    virtual void remove_value(const Shared &, size_t, const Value &, D::rng_t &) = 0;
    virtual float score_value_group(const Shared &, size_t, const Value &, D::rng_t &) = 0;
    virtual void score_value(const Shared &, const Value &, D::AlignedFloats, D::rng_t &) = 0;
    virtual float score_data(const Shared &, D::rng_t &) = 0;
    virtual void score_data_grid(const std::vector<Shared> &, D::AlignedFloats, D::rng_t &) = 0;
    virtual void validate(const Shared &) = 0;
};
template<class M, class X>
struct MixImpl : MixBase<M> {
    typedef typename M::Shared Shared;
    typedef typename M::Group Group;
    typedef typename M::Value Value;
    X x;
    std::vector<Group> & groups() { return x.groups(); }
    void init(const Shared & s, D::rng_t & r) { x.init(s, r); }
    void add_group(const Shared & s, D::rng_t & r) { x.add_group(s, r); }
    void remove_group(const Shared & s, size_t g) { x.remove_group(s, g); }
    void add_value(const Shared & s, size_t g, const Value & v, D::rng_t & r) { x.add_value(s, g, v, r); }
    void remove_value(const Shared & s, size_t g, const Value & v, D::rng_t & r) { x.remove_value(s, g, v, r); }
    float score_value_group(const Shared & s, size_t g, const Value & v, D::rng_t & r) { return x.score_value_group(s, g, v, r); }
    void score_value(const Shared & s, const Value & v, D::AlignedFloats f, D::rng_t & r) { x.score_value(s, v, f, r); }
    float score_data(const Shared & s, D::rng_t & r) { return x.score_data(s, r); }
    void score_data_grid(const std::vector<Shared> & s, D::AlignedFloats f, D::rng_t & r) { x.score_data_grid(s, f, r); }
    void validate(const Shared & s) { x.validate(s); }
};

template<class M>
struct ModelRunner : Runner {
    typedef typename M::Shared Shared;
    typedef typename M::Group Group;
    typedef typename M::Value Value;
    typedef typename M::Sampler Sampler;
    typedef Msg<M> G;
    typedef typename G::P P;

    D::rng_t rng;
    std::map<long, Shared> shareds;
    std::map<long, Group> groups;
    Scored<M> scored;
    std::map<long, std::shared_ptr<MixBase<M>>> mixes;
    long cur;

    Shared & sh() { return shareds.at(cur); }
    Group & grp(const Tok & t, size_t i) {
        auto it = groups.find(i64(t.at(i)));
        if (it == groups.end()) throw ScriptError("no group " + t[i]);
        return it->second;
    }
    MixBase<M> & mix(const Tok & t, size_t i) {
        auto it = mixes.find(i64(t.at(i)));
        if (it == mixes.end()) throw ScriptError("no mixture " + t[i]);
        return *it->second;
    }
    void put(Out & o, const char * k, const Shared & s) {
        typename P::Shared m;
        s.protobuf_dump(m);
        Out x;
        G::out(x, m);
        more(x, s);
        o.raw(k, x.done());
    }
    template<class S> static void more(Out &, const S &) {}
    static void more(Out & o, const D::DirichletProcessDiscrete::Shared & s) { o.n("beta0", s.beta0); }
    template<class S> void pieces(Out &, const Tok &, const S &) { throw ScriptError("spieces"); }
    void pieces(Out & o, const Tok & t, const D::DirichletProcessDiscrete::Shared & s) {
        long n = i64(t.at(1));
        std::vector<float> th = floats(t.at(3));
        std::vector<long> k(th.size());
        for (long i = 0; i < n; ++i) {
            D::DirichletProcessDiscrete::Shared c = s;
            c.add_value(u32(t.at(2)), rng);
            float p = c.betas.get(u32(t[2])) / s.beta0;
            for (size_t j = 0; j < th.size(); ++j) k[j] += p <= th[j];
        }
        std::string r = "[";
        for (size_t j = 0; j < th.size(); ++j) r += (j ? "," : "") + std::to_string(k[j]);
        o.i("n", n); o.ns("th", th); o.raw("ks", r + "]");
    }
    void put(Out & o, const char * k, const Group & g) {
        typename P::Group m;
        g.protobuf_dump(m);
        Out x;
        G::out(x, m);
        o.raw(k, x.done());
    }
    static std::string bytes(const std::string & s) {
        std::string r;
        char b[4];
        for (unsigned char c : s) { snprintf(b, sizeof b, "%02x", c); r += b; }
        return r;
    }

    std::string random_state() const { std::ostringstream s; s << rng; return s.str(); }
    bool cmd(const Tok & t, Out & o) {
        const std::string & c = t[0];
        if (c == "seed") { rng.seed(u32(t.at(1))); o.str("s", t[1]); }
        else if (c == "shared") {  // shared S k=v ...
            typename P::Shared m;
            G::in(m, KV(t, 2));
            cur = i64(t.at(1));
            shareds[cur] = Shared();
            shareds[cur].protobuf_load(m);
            o.i("s", cur);
            put(o, "sh", sh());
        }
        else if (c == "use") { cur = i64(t.at(1)); o.i("s", cur); put(o, "sh", sh()); }
        else if (c == "reload") {  // reload S k=v: protobuf_load over an existing object
            typename P::Shared m;
            G::in(m, KV(t, 2));
            cur = i64(t.at(1));
            sh().protobuf_load(m);
            o.i("s", cur);
            put(o, "sh", sh());
        }
        else if (c == "sdump") { o.i("s", cur); put(o, "sh", sh()); }
        else if (c == "spb") {  // shared through bytes: spb S1 S2
            typename P::Shared m, m2;
            shareds.at(i64(t.at(1))).protobuf_dump(m);
            std::string b;
            m.SerializeToString(&b);
            m2.ParseFromString(b);
            long d = i64(t.at(2));
            if (!shareds.count(d)) shareds[d] = Shared();
            shareds[d].protobuf_load(m2);
            o.i("s", i64(t[1])); o.i("d", d);
            put(o, "sh", shareds[d]);
        }
        else if (c == "new") {
            long g = i64(t.at(1));
            if (!groups.count(g)) groups[g] = Group();
            groups[g].init(sh(), rng);
            o.i("g", g);
        }
        else if (c == "add") { grp(t, 1).add_value(sh(), Val<Value>::in(t.at(2)), rng); arg(o, t); }
        else if (c == "rem") { grp(t, 1).remove_value(sh(), Val<Value>::in(t.at(2)), rng); arg(o, t); }
        else if (c == "rep") {
            grp(t, 1).add_repeated_value(sh(), Val<Value>::in(t.at(2)), (int)i64(t.at(3)), rng);
            arg(o, t);
            o.i("n", i64(t[3]));
        }
        else if (c == "merge") { grp(t, 1).merge(sh(), grp(t, 2), rng); o.i("g", i64(t[1])); o.i("h", i64(t[2])); }
        else if (c == "copy") { groups[i64(t.at(1))] = grp(t, 2); o.i("g", i64(t[1])); o.i("h", i64(t[2])); }
        else if (c == "gpb") {  // g := parse(serialise(h))
            typename P::Group m, m2;
            grp(t, 2).protobuf_dump(m);
            std::string b;
            m.SerializeToString(&b);
            m2.ParseFromString(b);
            long g = i64(t.at(1));
            if (!groups.count(g)) groups[g] = Group();
            groups[g].protobuf_load(m2);
            o.i("g", g); o.i("h", i64(t[2]));
        }
        else if (c == "stats") { o.i("g", i64(t.at(1))); put(o, "r", grp(t, 1)); }
        else if (c == "sd") { o.i("g", i64(t.at(1))); o.n("r", grp(t, 1).score_data(sh(), rng)); }
        else if (c == "sv") { arg(o, t); o.n("r", grp(t, 1).score_value(sh(), Val<Value>::in(t.at(2)), rng)); }
        else if (c == "svs") {
#ifdef __SANITIZE_THREAD__      // threads that look at one object bring scorers of their own
            Scored<M> scored;
#endif
            arg(o, t); o.n("r", scored.eval(sh(), grp(t, 1), Val<Value>::in(t.at(2)), rng)); }
        else if (c == "post") {
            Shared p;
            o.i("g", i64(t.at(1)));
            if (!plus_group(sh(), grp(t, 1), p, 0)) throw ScriptError("no plus_group");
            put(o, "r", p);
        }
        else if (c == "val") { o.i("g", i64(t.at(1))); grp(t, 1).validate(sh()); }
        // ---- shared with state (dpd)
        else if (c == "sadd") { o.str("v", t.at(1)); sh().add_value(Val<Value>::in(t[1]), rng); put(o, "sh", sh()); }
        else if (c == "srem") { o.str("v", t.at(1)); sh().remove_value(Val<Value>::in(t[1]), rng); put(o, "sh", sh()); }
        else if (c == "srealize") { sh().realize(rng); put(o, "sh", sh()); }
        else if (c == "srefused") {  // srefused sadd|srem v : a call that must be refused
            o.str("op", t.at(1)); o.str("v", t.at(2));
            bool refused = false;
            try {
                if (t[1] == "sadd") sh().add_value(Val<Value>::in(t[2]), rng);
                else sh().remove_value(Val<Value>::in(t[2]), rng);
            } catch (const std::runtime_error &) { refused = true; }
            o.raw("refused", refused ? "true" : "false");
            put(o, "sh", sh());
        }
        else if (c == "spieces") pieces(o, t, sh());
        // ---- sampling
        else if (c == "samp") {  // samp g n : n independent draws of Group::sample_value
            o.i("g", i64(t.at(1)));
            draws(o, i64(t.at(2)), [&] { return grp(t, 1).sample_value(sh(), rng); });
        }
        else if (c == "sampler") {  // sampler g k n : k samplers, n draws each
            o.i("g", i64(t.at(1)));
            long n = i64(t.at(3)), left = 0;
            Sampler s;
            draws(o, i64(t.at(2)) * n, [&] {
                if (left == 0) { s.init(sh(), grp(t, 1), rng); left = n; }
                --left;
                return s.eval(sh(), rng);
            });
        }
        else if (c == "hist" || c == "pairs") {  // hist g n how top : counts of the values drawn
            long n = i64(t.at(2));
            double top = t.at(4) == "-" ? HUGE_VAL : atof(t[4].c_str());
            std::map<std::string, std::map<std::string, long>> k;
            Sampler s;
            for (long i = 0; i < n; ++i) {
                std::string a, b;
                if (t.at(3) == "value") a = capped(grp(t, 1).sample_value(sh(), rng), top);
                else {
                    s.init(sh(), grp(t, 1), rng);
                    a = capped(s.eval(sh(), rng), top);
                    if (c == "pairs") b = capped(s.eval(sh(), rng), top);
                }
                ++k[a][b];
            }
            std::vector<std::string> vs, ws;
            std::string r = "[";
            for (auto & x : k) for (auto & y : x.second) {
                vs.push_back(Out::quote(x.first)); ws.push_back(Out::quote(y.first));
                if (r.size() > 1) r += ",";
                r += std::to_string(y.second);
            }
            o.i("g", i64(t[1])); o.i("n", n); o.str("how", t[3]); o.str("top", t[4]);
            o.raw("vs", join(vs)); o.raw("ws", join(ws)); o.raw("ks", r + "]");
        }
        else if (c == "cdfs") {  // cdfs g n how w th : draws (projected on w) at or below the thresholds
            long n = i64(t.at(2)), bad = 0;
            std::vector<float> w = t.at(4) == "-" ? std::vector<float>() : floats(t[4]), th = floats(t.at(5));
            std::vector<long> k(th.size());
            Sampler s;
            for (long i = 0; i < n; ++i) {
                double a;
                if (t.at(3) == "value") a = onto(grp(t, 1).sample_value(sh(), rng), w);
                else {
                    s.init(sh(), grp(t, 1), rng);
                    a = onto(s.eval(sh(), rng), w);
                    if (t[3] != "sampler") {
                        double b = onto(s.eval(sh(), rng), w);
                        a = t[3] == "diff" ? a - b : (a + b) / 2;
                    }
                }
                if (num(a) == "nan" || num(a) == "inf" || num(a) == "-inf") { ++bad; continue; }
                for (size_t j = 0; j < th.size(); ++j) k[j] += a <= th[j];
            }
            std::string r = "[";
            for (size_t j = 0; j < th.size(); ++j) r += (j ? "," : "") + std::to_string(k[j]);
            o.i("g", i64(t[1])); o.i("n", n); o.str("how", t[3]); o.ns("w", w); o.ns("th", th);
            o.i("bad", bad); o.raw("ks", r + "]");
        }
        // ---- mixtures
        else if (c == "mnew") {
            MixBase<M> * x;
            if (t.at(2) == "fast") x = new MixImpl<M, typename Mixes<M>::Fast>();
            else x = new MixImpl<M, typename Mixes<M>::Small>();
            mixes[i64(t.at(1))].reset(x);
            o.i("x", i64(t[1])); o.str("kind", t[2]);
        }
        else if (c == "mpush") { mix(t, 1).groups().push_back(grp(t, 2)); o.i("x", i64(t[1])); o.i("g", i64(t[2])); }
        else if (c == "mclear") { mix(t, 1).groups().clear(); o.i("x", i64(t[1])); }
        else if (c == "minit") { mix(t, 1).init(sh(), rng); o.i("x", i64(t[1])); }
        else if (c == "maddg") { mix(t, 1).add_group(sh(), rng); o.i("x", i64(t[1])); }
        else if (c == "mremg") { mix(t, 1).remove_group(sh(), i64(t.at(2))); o.i("x", i64(t[1])); o.i("i", i64(t[2])); }
        else if (c == "madd") { margs(o, t); mix(t, 1).add_value(sh(), i64(t.at(2)), Val<Value>::in(t.at(3)), rng); }
        else if (c == "mrem") { margs(o, t); mix(t, 1).remove_value(sh(), i64(t.at(2)), Val<Value>::in(t.at(3)), rng); }
        else if (c == "msvg") { margs(o, t); o.n("r", mix(t, 1).score_value_group(sh(), i64(t.at(2)), Val<Value>::in(t.at(3)), rng)); }
        else if (c == "msv") {  // msv x v base : accumulates onto base + index
            MixBase<M> & m = mix(t, 1);
            D::VectorFloat f(m.groups().size());
            float base = f32(t.at(3));
            for (size_t i = 0; i < f.size(); ++i) f[i] = base + i;
            m.score_value(sh(), Val<Value>::in(t.at(2)), f, rng);
            o.i("x", i64(t[1])); o.raw("v", Val<Value>::out(Val<Value>::in(t[2]))); o.str("b", t[3]);
            o.ns("r", f);
        }
        else if (c == "msd") { o.i("x", i64(t.at(1))); o.n("r", mix(t, 1).score_data(sh(), rng)); }
        else if (c == "mgrid") {  // mgrid x S1,S2,...
            std::vector<Shared> g;
            std::string ids = "[";
            if (t.size() > 2) for (auto & s : split(t[2], ',')) {
                g.push_back(shareds.at(i64(s)));
                if (ids.size() > 1) ids += ",";
                ids += s;
            }
            D::VectorFloat f(g.size());
            mix(t, 1).score_data_grid(g, f, rng);
            o.i("x", i64(t[1])); o.raw("ss", ids + "]"); o.ns("r", f);
        }
        else if (c == "mlen") { o.i("x", i64(t.at(1))); o.i("r", mix(t, 1).groups().size()); }
        else if (c == "mstats") {
            o.i("x", i64(t.at(1))); o.i("i", i64(t.at(2)));
            put(o, "r", mix(t, 1).groups().at(i64(t[2])));
        }
        else if (c == "mval") { o.i("x", i64(t.at(1))); mix(t, 1).validate(sh()); }
        else if (c == "mvt") student(o, t, Val<Value>::in(t.at(2)));   // mvt dof v mu sigma
        else if (c == "rngstate") { std::ostringstream s; s << rng; o.str("r", s.str()); }
        else return false;
        return true;
    }
    static std::string join(const std::vector<std::string> & v) {
        std::string r = "[";
        for (size_t i = 0; i < v.size(); ++i) { if (i) r += ","; r += v[i]; }
        return r + "]";
    }
    template<class V> static std::string capped(const V & v, double top) {
        return static_cast<double>(v) > top ? "T" : num(v);
    }
    template<int d> static std::string capped(const Eigen::Matrix<float, d, 1> &, double) { throw ScriptError("hist"); }
    static double onto(double v, const std::vector<float> &) { return v; }
    template<int d> static double onto(const Eigen::Matrix<float, d, 1> & v, const std::vector<float> & w) {
        double r = 0;
        for (size_t i = 0; i < w.size(); ++i) r += static_cast<double>(w[i]) * v(i);
        return r;
    }
    template<class V> static void student(Out &, const Tok &, const V &) { throw ScriptError("mvt"); }
    template<int d> static void student(Out & o, const Tok & t, const Eigen::Matrix<float, d, 1> & v) {
        typedef Val<Eigen::Matrix<float, d, 1>> VV;
        const Eigen::Matrix<float, d, 1> mu = VV::in(t.at(3));
        const std::vector<float> s = floats(t.at(4));
        Eigen::Matrix<float, d, d> sigma;
        sigma.resize(v.size(), v.size());
        for (int i = 0; i < v.size(); ++i) for (int j = 0; j < v.size(); ++j) sigma(i, j) = s.at(i * v.size() + j);
        const float dof = f32(t.at(1));
        o.n("dof", dof); o.raw("v", VV::out(v)); o.raw("mu", VV::out(mu)); o.ns("sigma", s);
        o.n("r", D::score_mv_student_t(v, dof, mu, sigma));
    }
    void arg(Out & o, const Tok & t) {
        o.i("g", i64(t.at(1)));
        o.raw("v", Val<Value>::out(Val<Value>::in(t.at(2))));
    }
    void margs(Out & o, const Tok & t) {
        o.i("x", i64(t.at(1))); o.i("i", i64(t.at(2)));
        o.raw("v", Val<Value>::out(Val<Value>::in(t.at(3))));
    }
    template<class F> void draws(Out & o, long n, F f) {
        std::string r = "[";
        for (long i = 0; i < n; ++i) {
            if (i) r += ",";
            r += Val<Value>::out(f());
        }
        o.i("n", n);
        o.raw("r", r + "]");
    }
};

template<class M> Runner * make_runner() { return new ModelRunner<M>(); }
}  // namespace h
