// Clustering priors, mixture drivers, the id tracker and all of them together.
#include "core.hpp"
#include <algorithm>
#include <distributions/clustering.hpp>
#include <distributions/mixture.hpp>
#include <distributions/models/dd.hpp>
#include <distributions/models/gp.hpp>
#include <distributions/io/protobuf.hpp>
#include <distributions/io/schema.pb.h>

namespace h {
namespace D = distributions;
namespace pb = ::protobuf::distributions;
typedef D::Clustering<int> C;
typedef C::PitmanYor PY;
typedef C::LowEntropy LE;

template<class V> std::string ints(const V & v) {
    std::string r = "[";
    bool f = true;
    for (auto x : v) { if (!f) r += ","; f = false; r += std::to_string((long)x); }
    return r + "]";
}
inline std::vector<int> intlist(const Tok & t, size_t from) {
    std::vector<int> r;
    for (size_t i = from; i < t.size(); ++i) r.push_back(i64(t[i]));
    return r;
}

struct MixIf {
    virtual ~MixIf() {}
    virtual void init(const std::vector<int> &) = 0;
    virtual bool add(size_t g, int n) = 0;
    virtual bool rem(size_t g, int n) = 0;
    virtual void obs(Out & o) = 0;
    virtual void summary(Out & o) = 0;
    virtual void score(D::VectorFloat & f) = 0;
    virtual float data() = 0;
    virtual size_t size() = 0;
};
template<class Model, class Mix> struct MixOf : MixIf {
    const Model & m;
    Mix x;
    explicit MixOf(const Model & m) : m(m) {}
    void init(const std::vector<int> & c) { x.counts() = c; x.init(m); }
    bool add(size_t g, int n) { return n == 1 ? x.add_value(m, g) : x.add_value(m, g, n); }
    bool rem(size_t g, int n) { return n == 1 ? x.remove_value(m, g) : x.remove_value(m, g, n); }
    void obs(Out & o) {
        const Mix & y = x;
        std::vector<long> e(y.empty_groupids().begin(), y.empty_groupids().end());
        std::sort(e.begin(), e.end());
        std::vector<long> c;
        for (size_t i = 0; i < y.counts().size(); ++i) c.push_back(y.counts(i));
        o.raw("cs", ints(c));
        o.raw("em", ints(e));
        o.i("ss", y.sample_size());
    }
    void summary(Out & o) {  // runs of positions that look the same: size, empty, score
        const Mix & y = x;
        const size_t n = y.counts().size();
        std::vector<char> empty(n, 0);
        long stray = 0;
        for (auto i : y.empty_groupids()) { if (i < n) empty[i] = 1; else ++stray; }
        D::VectorFloat f(n, 12345.f);
        x.score_value(m, f);
        std::string r = "[";
        for (size_t i = 0, j; i < n; i = j) {
            for (j = i; j < n && y.counts(j) == y.counts(i) && empty[j] == empty[i] && num(f[j]) == num(f[i]); ++j) {}
            if (r.size() > 1) r += ",";
            r += "[" + std::to_string(y.counts(i)) + "," + std::to_string(j - i) + "," + std::to_string(int(empty[i])) + "," + Out::quote(num(f[i])) + "]";
            if (r.size() > 20000) { r += ",[-1,0,0,\"0\"]"; break; }
        }
        o.raw("at", r + "]");
        o.i("ss", y.sample_size());
        o.i("stray", stray);
    }
    void score(D::VectorFloat & f) { x.score_value(m, f); }
    float data() { return x.score_data(m); }
    size_t size() { return x.counts().size(); }
};

// ---- component mixtures ----------------------------------------------------
struct CompIf {
    virtual ~CompIf() {}
    virtual void init(const std::vector<int> & counts, D::rng_t &) = 0;
    virtual void add_group(D::rng_t &) = 0;
    virtual void remove_group(size_t) = 0;
    virtual void add(size_t, const std::string &, D::rng_t &) = 0;
    virtual void rem(size_t, const std::string &, D::rng_t &) = 0;
    virtual std::string show() = 0;
};
template<class Mix, class M> struct CompOf : CompIf {
    typename M::Shared sh;
    Mix x;
    CompOf() : sh(M::Shared::EXAMPLE()) {}
    void init(const std::vector<int> & counts, D::rng_t & rng) {
        x.groups().resize(counts.size());
        for (auto & g : x.groups()) g.init(sh, rng);
        x.init(sh, rng);
    }
    void add_group(D::rng_t & rng) { x.add_group(sh, rng); }
    void remove_group(size_t i) { x.remove_group(sh, i); }
    void add(size_t i, const std::string & v, D::rng_t & rng) { x.add_value(sh, i, i64(v), rng); }
    void rem(size_t i, const std::string & v, D::rng_t & rng) { x.remove_value(sh, i, i64(v), rng); }
    std::string show() {
        std::string r = "[";
        for (size_t i = 0; i < x.groups().size(); ++i) { if (i) r += ","; r += one(x.groups(i)); }
        return r + "]";
    }
    std::string one(const D::DirichletDiscrete<16>::Group & g) { return ints(std::vector<int>(g.counts, g.counts + g.dim)); }
    std::string one(const D::GammaPoisson::Group & g) { return ints(std::vector<long>{(long)g.count, (long)g.sum}); }
};

struct CluRunner : Runner {
    D::rng_t rng;
    PY py;
    LE le;
    std::string kind, var, model;
    std::unique_ptr<MixIf> mix;
    std::unique_ptr<CompIf> small, fast;
    std::unique_ptr<D::MixtureIdTracker> tr;

    void ids(Out & o) {
        std::vector<long> a, b;
        for (size_t i = 0; i < tr->packed_size(); ++i) {
            a.push_back(tr->packed_to_global(i));
            b.push_back(tr->global_to_packed(a.back()));
        }
        o.raw("ids", ints(a));
        o.raw("back", ints(b));
        o.i("ps", tr->packed_size());
        o.i("gs", tr->global_size());
    }
    void obs(Out & o) {
        mix->obs(o);
        if (tr) ids(o);
        if (small) { o.raw("small", small->show()); o.raw("fast", fast->show()); }
    }
    void show_model(Out & o, const PY & p) { o.str("kind", "py"); o.n("alpha", p.alpha); o.n("d", p.d); }
    void show_model(Out & o, const LE & p) { o.str("kind", "le"); o.i("N", p.dataset_size); }

    // partitions too large to list: "size:times" runs
    static std::vector<int> runs(const std::string & spec, Out & o) {
        std::vector<int> cs;
        std::string shown = "[";
        std::istringstream in(spec);
        std::string part;
        while (std::getline(in, part, ',')) {
            size_t at = part.find(':');
            long size = i64(part.substr(0, at)), times = i64(part.substr(at + 1));
            cs.insert(cs.end(), times, size);
            shown += (shown.size() > 1 ? ",[" : "[") + std::to_string(size) + "," + std::to_string(times) + "]";
        }
        o.raw("runs", shown + "]");
        return cs;
    }
    void big(const Tok & t, Out & o) {  // a mixture of many groups; each step names a group by its position
        mix->init(runs(t.at(1), o));
        std::string steps = "[";
        for (size_t i = 1; i < t.size(); ++i) {
            Out s;
            if (i > 1) {
                size_t p = t[i].find(':'), q = t[i].find(':', p + 1);
                std::string op = t[i].substr(0, p);
                long g = i64(t[i].substr(p + 1, q - p - 1)), n = i64(t[i].substr(q + 1));
                s.str("op", op); s.i("g", g); s.i("n", n);
                s.i("flag", op == "add" ? mix->add(g, n) : mix->rem(g, n));
            } else s.str("op", "init");
            mix->summary(s);
            s.n("sd", mix->data());
            steps += (i > 1 ? "," : "") + s.s + "}";
        }
        o.raw("steps", steps + "]");
    }
    // runs of consecutive numbers: first position, first number, length
    static std::string pieces(const std::vector<long> & v) {
        std::string r = "[";
        for (size_t i = 0, j; i < v.size(); i = j) {
            for (j = i; j < v.size() && v[j] - v[i] == long(j - i); ++j) {}
            if (r.size() > 1) r += ",";
            r += "[" + std::to_string(i) + "," + std::to_string(v[i]) + "," + std::to_string(j - i) + "]";
            if (r.size() > 20000) { r += ",[-1,0,0]"; break; }
        }
        return r + "]";
    }
    void tbig(const Tok & t, Out & o) {  // a tracker of many groups
        D::MixtureIdTracker x;
        x.init(i64(t.at(1)));
        o.i("n", i64(t[1]));
        std::string steps = "[";
        for (size_t i = 1; i < t.size(); ++i) {
            Out s;
            if (i == 1) s.str("op", "init");
            else if (t[i] == "add") { x.add_group(); s.str("op", "add"); }
            else { x.remove_group(i64(t[i])); s.str("op", "rem"); s.i("g", i64(t[i])); }
            std::vector<long> a, b;
            for (size_t p = 0; p < x.packed_size(); ++p) {
                a.push_back(x.packed_to_global(p));
                b.push_back(x.global_to_packed(a.back()));
            }
            s.raw("ids", pieces(a));
            s.raw("back", pieces(b));
            s.i("ps", x.packed_size());
            s.i("gs", x.global_size());
            steps += (i > 1 ? "," : "") + s.s + "}";
        }
        o.raw("steps", steps + "]");
    }
    std::string random_state() const { std::ostringstream s; s << rng; return s.str(); }
    bool cmd(const Tok & t, Out & o) {
        const std::string & c = t[0];
        if (c == "seed") { rng.seed(i64(t.at(1))); o.e_("other"); }
        else if (c == "model") {
            KV k(t, 1);
            kind = t.at(1);
            if (kind == "py") { py.alpha = f32(k.get("alpha")); py.d = f32(k.get("d")); show_model(o, py); }
            else { le.dataset_size = i64(k.get("N")); show_model(o, le); }
        }
        else if (c == "mdict" || c == "mpb") {
            if (kind == "py") {
                pb::Clustering::PitmanYor m, n; py.protobuf_dump(m);
                std::string b; m.SerializeToString(&b); n.ParseFromString(b);
                py.alpha = 77; py.d = 0.77f; py.protobuf_load(n); show_model(o, py);
            } else {
                pb::Clustering::LowEntropy m, n; le.protobuf_dump(m);
                std::string b; m.SerializeToString(&b); n.ParseFromString(b);
                le.dataset_size = 77; le.protobuf_load(n); show_model(o, le);
            }
        }
        else if (c == "var") {  // raw | mix | joint-dd | joint-gp
            var = t.at(1);
            bool raw = var == "raw";
            if (kind == "py") {
                if (raw) mix.reset(new MixOf<PY, D::MixtureDriver<PY, int>>(py));
                else mix.reset(new MixOf<PY, PY::Mixture>(py));
            } else {
                if (raw) mix.reset(new MixOf<LE, D::MixtureDriver<LE, int>>(le));
                else mix.reset(new MixOf<LE, LE::Mixture>(le));
            }
            small.reset(); fast.reset(); tr.reset();
            if (var == "joint-dd") {
                typedef D::DirichletDiscrete<16> M;
                small.reset(new CompOf<M::SmallMixture, M>()); fast.reset(new CompOf<M::FastMixture, M>());
                tr.reset(new D::MixtureIdTracker());
            } else if (var == "joint-gp") {
                typedef D::GammaPoisson M;
                small.reset(new CompOf<M::SmallMixture, M>()); fast.reset(new CompOf<M::FastMixture, M>());
                tr.reset(new D::MixtureIdTracker());
            }
            o.e_("other");
        }
        else if (c == "init") {
            std::vector<int> cs = intlist(t, 1);
            mix->init(cs);
            if (small) { small->init(cs, rng); fast->init(cs, rng); }
            if (tr) tr->init(cs.size());
            o.raw("a", ints(cs));
            obs(o);
        }
        else if (c == "add" || c == "rem") {
            size_t g = i64(t.at(1));
            int n = i64(t.at(2));
            bool flag;
            if (c == "add") {
                if (small) { small->add(g, t.at(3), rng); fast->add(g, t[3], rng); }
                flag = mix->add(g, n);
                if (flag && small) { small->add_group(rng); fast->add_group(rng); }
                if (flag && tr) tr->add_group();
            } else {
                if (small) { small->rem(g, t.at(3), rng); fast->rem(g, t[3], rng); }
                flag = mix->rem(g, n);
                if (flag && small) { small->remove_group(g); fast->remove_group(g); }
                if (flag && tr) tr->remove_group(g);
            }
            o.i("g", g); o.i("n", n);
            if (t.size() > 3) o.str("v", t[3]);
            o.i("flag", flag);
            obs(o);
        }
        else if (c == "obs") obs(o);
        else if (c == "sv") { D::VectorFloat f(mix->size(), 12345.f); mix->score(f); o.ns("r", f); }
        else if (c == "sd") o.n("r", mix->data());
        else if (c == "tinit") { tr.reset(new D::MixtureIdTracker()); tr->init(i64(t.at(1))); o.i("n", i64(t[1])); ids(o); }
        else if (c == "treinit") { tr->init(i64(t.at(1))); o.e_("tinit"); o.i("n", i64(t[1])); ids(o); }
        else if (c == "tadd") { tr->add_group(); ids(o); }
        else if (c == "trem") { tr->remove_group(i64(t.at(1))); o.i("g", i64(t[1])); ids(o); }
        else if (c == "p2g") { o.i("g", i64(t.at(1))); o.i("r", tr->packed_to_global(i64(t[1]))); }
        else if (c == "g2p") { o.i("g", i64(t.at(1))); o.i("r", tr->global_to_packed(i64(t[1]))); }
        else if (c == "sa" || c == "sr") {  // group nonempty sample empty
            int g = i64(t.at(1)), k = i64(t.at(2)), n = i64(t.at(3)), m = i64(t.at(4));
            o.i("c", g); o.i("k", k); o.i("n", n); o.i("m", m);
            float r;
            if (c == "sa") r = kind == "py" ? py.score_add_value(g, k, n, m) : le.score_add_value(g, k, n, m);
            else r = kind == "py" ? py.score_remove_value(g, k, n, m) : le.score_remove_value(g, k, n, m);
            o.n("r", r);
        }
        else if (c == "sc") {
            std::vector<int> cs = intlist(t, 1);
            o.raw("cs", ints(cs));
            o.n("r", kind == "py" ? py.score_counts(cs) : le.score_counts(cs));
        }
        else if (c == "tbig") { tbig(t, o); }
        else if (c == "big") { big(t, o); }
        else if (c == "scr") {  // score_counts of a partition given by runs of equal sizes
            std::vector<int> cs = runs(t.at(1), o);
            o.n("r", kind == "py" ? py.score_counts(cs) : le.score_counts(cs));
        }
        else if (c == "z") { o.i("n", i64(t.at(1))); o.n("r", le.log_partition_function(i64(t[1]))); }
        else if (c == "asg" || c == "asgl") {
            int size = i64(t.at(1));
            D::rng_t copy = rng;
            std::vector<int> a = kind == "py" ? py.sample_assignments(size, rng) : le.sample_assignments(size, rng);
            std::vector<float> u;
            for (int i = 0; i < size; ++i) u.push_back(D::sample_unif01(copy));
            o.i("size", size);
            o.raw("ids", ints(a));
            o.ns("us", u);
            if (c == "asgl") o.raw("at", ints(intlist(t, 2)));
        }
        else if (c == "asgfreq") {
            int size = i64(t.at(1)), n = i64(t.at(2));
            std::map<std::vector<int>, int> m;
            for (int i = 0; i < n; ++i) ++m[kind == "py" ? py.sample_assignments(size, rng) : le.sample_assignments(size, rng)];
            std::string vs = "[";
            std::vector<int> ns;
            for (auto & p : m) { if (vs.size() > 1) vs += ","; vs += ints(p.first); ns.push_back(p.second); }
            o.i("size", size); o.i("n", n); o.raw("vs", vs + "]"); o.raw("ns", ints(ns));
        }
        else if (c == "cnt") {  // gid of value 0, 1, ...
            std::vector<int> g = intlist(t, 1);
            C::Assignments a;
            for (size_t i = 0; i < g.size(); ++i) a[i] = g[i];
            o.raw("gids", ints(g));
            o.raw("r", ints(C::count_assignments(a)));
        }
        else return false;
        return true;
    }
};
static Runner * make_clu() { return new CluRunner(); }
static Register r_clu("clu", &make_clu);
}  // namespace h
