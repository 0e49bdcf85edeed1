// Sparse_, SparseCounter, Packed_ (one object per id, the whole content after every call).
#include "core.hpp"
#include <algorithm>
#include <new>
#include <distributions/sparse.hpp>
#include <distributions/vector.hpp>

namespace h {
namespace D = distributions;
typedef uint32_t K;

// objects live in dirty memory, so that a member left uninitialised shows
template<class T> struct Dirty {
    char * mem;
    T * p;
    Dirty() : mem(static_cast<char *>(malloc(sizeof(T)))) {
        memset(mem, 0x5a, sizeof(T));
        p = new (mem) T;
    }
    ~Dirty() { p->~T(); free(mem); }
    Dirty(const Dirty &) = delete;
};

template<class V> struct Conv;
template<> struct Conv<float> {
    static float in(const std::string & s) { return f32(s); }
    static std::string out(float v) { return Out::quote(num(v)); }
};
template<> struct Conv<int> {
    static int in(const std::string & s) { return i64(s); }
    static std::string out(int v) { return Out::quote(num(v)); }
};
template<> struct Conv<std::vector<int>> {   // heavy elements: n copies of n
    static std::vector<int> in(const std::string & s) { return std::vector<int>(i64(s) % 7 + 1, (int)i64(s)); }
    static std::string out(const std::vector<int> & v) { return Out::quote(v.empty() ? "0" : num(v[0])); }
};

struct MapIf {
    virtual ~MapIf() {}
    virtual bool cmd(const Tok & t, Out & o) = 0;
};
template<class V> struct MapOf : MapIf {
    typedef D::Sparse_<K, V> S;
    typedef Conv<V> X;
    Dirty<S> d;
    void all(Out & o) {
        const S & s = *d.p;
        std::string r = "[";
        for (auto & i : s) { if (r.size() > 1) r += ","; r += "[" + Out::quote(num(i.first)) + "," + X::out(i.second) + "]"; }
        o.raw("all", r + "]");
        o.i("n", s.size());
    }
    bool cmd(const Tok & t, Out & o) {
        const std::string & c = t[0];
        S & s = *d.p;
        const S & cs = s;
        K k = t.size() > 2 ? u32(t[2]) : 0;
        o.i("o", i64(t[1]));
        if (t.size() > 2) o.str("k", t[2]);
        if (t.size() > 3) o.raw("v", X::out(X::in(t[3])));
        if (c == "mnew" || c == "msee") {}
        else if (c == "madd") s.add(k, X::in(t.at(3)));
        else if (c == "maddd") { V & v = s.add(k); o.raw("r", X::out(v)); v = X::in(t.at(3)); }
        else if (c == "mrem") s.remove(k);
        else if (c == "mpop") { V v = s.pop(k); o.raw("r", X::out(v)); }
        else if (c == "mset") s.set(k, X::in(t.at(3)));
        else if (c == "mget") { V & v = s.get(k); o.raw("r", X::out(v)); }
        else if (c == "mcget") { const V & v = cs.get(k); o.raw("r", X::out(v)); }
        else if (c == "mmut") s.get(k) = X::in(t.at(3));
        else if (c == "mgoa") { V & v = s.get_or_add(k); o.raw("r", X::out(v)); }
        else if (c == "mhas") o.i("r", cs.contains(k));
        else if (c == "merase") {
            for (auto i = s.begin(); i != s.end(); ++i) if (i->first == k) { s.unsafe_erase(i); break; }
        }
        else if (c == "mclear") s.clear();
        else return false;
        all(o);
        return true;
    }
};

struct SeqIf {
    virtual ~SeqIf() {}
    virtual bool cmd(const Tok & t, Out & o) = 0;
};
template<class P, class V> struct SeqOf : SeqIf {
    typedef Conv<V> X;
    P p;
    SeqOf(size_t n, const std::string & v) : p(n, X::in(v)) {}
    bool cmd(const Tok & t, Out & o) {
        const std::string & c = t[0];
        o.i("o", i64(t[1]));
        if (c == "ssee") {}
        else if (c == "snew") { o.i("n", i64(t[2])); o.raw("v", X::out(X::in(t[3]))); }
        else if (c == "spush") { o.raw("v", X::out(X::in(t.at(2)))); p.packed_add(X::in(t[2])); }
        else if (c == "spushd") { o.raw("v", X::out(X::in(t.at(2)))); V & v = p.packed_add(); v = X::in(t[2]); }
        else if (c == "srem") { o.i("i", i64(t.at(2))); p.packed_remove(i64(t[2])); }
        else return false;
        std::string r = "[";
        for (size_t i = 0; i < p.size(); ++i) { if (i) r += ","; r += X::out(p[i]); }
        o.raw("all", r + "]");
        return true;
    }
};

struct ContRunner : Runner {
    typedef D::SparseCounter<K, int> C;
    std::map<long, std::unique_ptr<MapIf>> maps;
    std::map<long, std::unique_ptr<Dirty<C>>> cs;
    std::map<long, std::unique_ptr<SeqIf>> seqs;

    bool counter(const Tok & t, Out & o) {
        const std::string & c = t[0];
        long id = i64(t.at(1));
        if (c == "cnew") cs[id].reset(new Dirty<C>());
        C & x = *cs.at(id)->p;
        K k = t.size() > 2 ? u32(t[2]) : 0;
        o.i("o", id);
        if (c == "cmerge") { o.i("p", i64(t[2])); x.merge(*cs.at(i64(t[2]))->p); }
        else if (c == "ccopy") { o.i("p", i64(t[2])); x = *cs.at(i64(t[2]))->p; }
        else {
            if (t.size() > 2) o.str("k", t[2]);
            if (c == "cren") { o.str("k2", t.at(3)); x.rename(k, u32(t[3])); }
            else if (c == "cinit") { o.i("v", i64(t.at(3))); x.init_count(k, i64(t[3])); }
            else if (c == "cadd") { o.i("v", i64(t.at(3))); o.i("r", x.add(k, i64(t[3]))); }
            else if (c == "crem") o.i("r", x.remove(k));
            else if (c == "cget") o.i("r", x.get_count(k));
            else if (c == "cclear") x.clear();
            else if (c != "cnew" && c != "csee") return false;
        }
        std::string r = "[";
        for (auto & i : x) { if (r.size() > 1) r += ","; r += "[" + Out::quote(num(i.first)) + "," + std::to_string(i.second) + "]"; }
        o.raw("all", r + "]");
        o.i("total", x.get_total());
        return true;
    }
    bool cmd(const Tok & t, Out & o) {
        const std::string & c = t[0];
        if (c == "mnew") {
            if (t.at(2) == "float") maps[i64(t[1])].reset(new MapOf<float>());
            else if (t[2] == "int") maps[i64(t[1])].reset(new MapOf<int>());
            else maps[i64(t[1])].reset(new MapOf<std::vector<int>>());
            return maps[i64(t[1])]->cmd(Tok(t.begin(), t.begin() + 2), o);
        }
        if (c == "snew") {  // snew id n v type
            long id = i64(t.at(1)), n = i64(t.at(2));
            if (t.at(4) == "int") seqs[id].reset(new SeqOf<D::Packed_<int>, int>(n, t[3]));
            else if (t[4] == "float") seqs[id].reset(new SeqOf<D::VectorFloat, float>(n, t[3]));
            else seqs[id].reset(new SeqOf<D::Packed_<std::vector<int>>, std::vector<int>>(n, t[3]));
            return seqs[id]->cmd(t, o);
        }
        if (c[0] == 'm') return maps.at(i64(t.at(1)))->cmd(t, o);
        if (c[0] == 's') return seqs.at(i64(t.at(1)))->cmd(t, o);
        if (c[0] == 'c') return counter(t, o);
        return false;
    }
};
static Runner * make_cont() { return new ContRunner(); }
static Register r_cont("cont", &make_cont);
}  // namespace h
