// Several runners side by side, each with objects and a random source of its own.
//   open <run> <kind> [k=v ...]     a fresh runner
//   @<run> <command ...>            a command of that runner
//   close <run>
//   dirty <bytes> <byte>            leaves garbage in freed memory
#include "core.hpp"
#include <cstdlib>

namespace h {

struct ReplayRunner : Runner {
    std::map<std::string, std::unique_ptr<Runner>> runs;

    bool cmd(const Tok & t, Out & o) {
        const std::string & c = t[0];
        if (c == "open") {
            auto f = factories().find(t.at(2));
            if (f == factories().end()) throw ScriptError("no runner " + t[2]);
            runs[t.at(1)].reset(f->second());
            o.str("run", t[1]);
            o.str("kind", t[2]);
            o.str("cmd", text(t, 2));
            o.str("rng", runs[t[1]]->random_state());
        } else if (c == "close") {
            runs.erase(t.at(1));
            o.str("run", t[1]);
        } else if (c == "dirty") {
            long n = i64(t.at(1));
            std::vector<void *> ps;
            for (long size = 16; size <= n; size += size / 4 + 8) for (int k = 0; k < 4; ++k) {
                void * p = NULL;
                if (k % 2) { if (posix_memalign(&p, 32, size)) p = NULL; }
                else p = malloc(size);
                if (p) memset(p, (int)i64(t.at(2)), size);
                ps.push_back(p);
            }
            for (void * p : ps) free(p);
        } else if (c[0] == '@') {
            std::string id = c.substr(1);
            if (!runs.count(id)) throw ScriptError("no run " + id);
            Runner & r = *runs[id];
            Tok s(t.begin() + 1, t.end());
            Out x;
            x.str("e", s.at(0));
            std::string out;
            try {
                if (!r.cmd(s, x)) throw ScriptError("bad command " + text(s, 0));
                out = x.done();
            } catch (const ScriptError &) {
                throw;
            } catch (const std::logic_error & e) {
                if (!strncmp(e.what(), "harness", 7)) throw;
                out = std::string("error ") + e.what();
            } catch (const std::exception & e) {
                out = std::string("error ") + e.what();
            }
            o.e_("op");
            o.str("run", id);
            o.str("c", s[0]);
            o.str("cmd", text(s, 0));
            o.str("out", out);
            o.str("rng", r.random_state());
        } else {
            return false;
        }
        return true;
    }
    static std::string text(const Tok & t, size_t from) {
        std::string r;
        for (size_t i = from; i < t.size(); ++i) r += (i > from ? " " : "") + t[i];
        return r;
    }
};
static Runner * make() { return new ReplayRunner(); }
static Register reg("replay", make);

}  // namespace h
