// Programs of several threads, each on objects of its own.
//   thread <kind>              a thread with a runner of its own; threads are 1, 2, ...
//   @<t> <command ...>         a command of that thread
//   object <name> <kind>       a runner that all threads may look at
//   !<name> <command ...>      a command on it before the threads start
//   @<t> !<name> <command ..>  a thread looks at it
//   go seq | go rand <seed> <data> <sync> | go hist <t,t,...>
// go runs everything in a fresh process: nothing was computed there before.
#include "core.hpp"
#include "race.hpp"
#include <sys/wait.h>
#include <unistd.h>
#include <csignal>

namespace h {

struct ConcRunner : Runner {
    struct Cmd { std::string obj; Tok t; };
    std::vector<std::string> kinds;
    std::vector<std::vector<Cmd>> todo;
    std::vector<std::pair<std::string, std::string>> objects;
    std::vector<Cmd> before;

    static Runner * fresh(const std::string & kind) {
        auto f = factories().find(kind);
        if (f == factories().end()) throw ScriptError("no runner " + kind);
        return f->second();
    }
    static std::string text(const Tok & t) {
        std::string r;
        for (auto & x : t) r += (r.empty() ? "" : " ") + x;
        return r;
    }
    static std::string exec(Runner & r, const Tok & t) {
        Out x;
        x.str("e", t.at(0));
        try {
            if (!r.cmd(t, x)) return "script error: bad command " + text(t);
            return x.done();
        } catch (const ScriptError & e) {
            return std::string("script error: ") + e.what();
        } catch (const std::logic_error & e) {
            if (!strncmp(e.what(), "harness", 7)) return std::string("script error: ") + e.what();
            return std::string("error ") + e.what();
        } catch (const std::exception & e) {
            return std::string("error ") + e.what();
        }
    }

    struct Result { std::vector<std::string> out, rng; };
    std::map<std::string, std::unique_ptr<Runner>> objs;
    void body(size_t k, Result & res) {
        std::unique_ptr<Runner> own(fresh(kinds[k]));
        for (auto & c : todo[k]) {
            Runner & r = c.obj.empty() ? *own : *objs.find(c.obj)->second;
            res.out.push_back(exec(r, c.t));
            res.rng.push_back(own->random_state());
        }
    }
    void write_ops(std::string & s, size_t k, const Result & r) {
        for (size_t i = 0; i < r.out.size(); ++i) {
            if (!r.out[i].compare(0, 13, "script error:")) { std::cerr << r.out[i] << std::endl; _exit(2); }
            Out o;
            o.str("e", "op");
            o.i("t", k + 1);
            o.i("k", i + 1);
            o.str("cmd", text(todo[k][i].t));
            o.str("out", r.out[i]);
            o.str("rng", r.rng[i]);
            s += o.done() + "\n";
        }
    }
    void child(const Tok & t, std::string & s, size_t only) {
        for (auto & o : objects) objs[o.first].reset(fresh(o.second));
        for (auto & c : before) {
            std::string r = exec(*objs.at(c.obj), c.t);
            if (!r.compare(0, 13, "script error:")) { std::cerr << r << std::endl; _exit(2); }
        }
        if (t.at(1) == "seq") {
            Result r;
            body(only, r);
            write_ops(s, only, r);
            return;
        }
        race::Schedule sc;
        sc.kind = t[1];
        if (t[1] == "rand") { sc.seed = i64(t.at(2)); sc.data = i64(t.at(3)); sc.sync = i64(t.at(4)); }
        else for (auto & x : split(t.at(2), ',')) sc.hist.push_back(i64(x));
        std::vector<Result> rs(kinds.size());
        std::vector<std::function<void()>> bodies;
        for (size_t k = 0; k < kinds.size(); ++k) bodies.push_back([this, k, &rs] { body(k, rs[k]); });
        bool ok = race::run(bodies, sc);
        long all = 0, shared = 0;
        s += race::report(all, shared);
        if (!ok) { s += "{\"e\":\"stuck\"}\n"; return; }
        for (size_t k = 0; k < kinds.size(); ++k) write_ops(s, k, rs[k]);
        s += "{\"e\":\"end\",\"recorded\":" + std::to_string(all) + ",\"shared\":" + std::to_string(shared) + "}\n";
    }
    std::string fork_child(const Tok & t, size_t only) {
        int fd[2];
        if (pipe(fd)) throw std::logic_error("harness: pipe");
        fflush(stdout);
        pid_t p = fork();
        if (p < 0) throw std::logic_error("harness: fork");
        if (!p) {
            close(fd[0]);
            int sigs[] = {SIGTERM, SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM};
            for (int s : sigs) signal(s, SIG_DFL);
            alarm(50);
            std::string s;
            child(t, s, only);
            for (size_t i = 0; i < s.size();) {
                ssize_t n = write(fd[1], s.data() + i, s.size() - i);
                if (n <= 0) _exit(3);
                i += n;
            }
            _exit(0);
        }
        close(fd[1]);
        std::string s;
        char buf[65536];
        ssize_t n;
        while ((n = read(fd[0], buf, sizeof buf)) > 0) s.append(buf, n);
        close(fd[0]);
        int st = 0;
        waitpid(p, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 2) throw std::logic_error("harness: bad script");
        if (WIFSIGNALED(st)) {
            while (!s.empty() && s[s.size() - 1] != '\n') s.erase(s.size() - 1);
            s += "{\"e\":\"died\",\"sig\":" + std::to_string(WTERMSIG(st)) + "}\n";
        }
        return s;
    }

    bool cmd(const Tok & t, Out & o) {
        const std::string & c = t[0];
        if (c == "thread") {
            kinds.push_back(t.at(1));
            todo.push_back(std::vector<Cmd>());
            o.i("t", kinds.size());
        } else if (c == "object") {
            objects.push_back(std::make_pair(t.at(1), t.at(2)));
            o.e_("other");
        } else if (c[0] == '!') {
            Cmd x;
            x.obj = c.substr(1);
            x.t = Tok(t.begin() + 1, t.end());
            before.push_back(x);
            o.e_("other");
        } else if (c[0] == '@') {
            Cmd x;
            size_t k = i64(c.substr(1)) - 1, from = 1;
            if (t.at(1)[0] == '!') { x.obj = t[1].substr(1); from = 2; }
            x.t = Tok(t.begin() + from, t.end());
            todo.at(k).push_back(x);
            o.e_("other");
        } else if (c == "go") {
            o.str("how", t.at(1));
            o.i("n", kinds.size());
            if (t[1] == "seq") {
                for (size_t k = 0; k < kinds.size(); ++k) o.tail += fork_child(t, k);
            } else {
                o.tail = fork_child(t, 0);
            }
        } else {
            return false;
        }
        return true;
    }
};
static Runner * make() { return new ConcRunner(); }
static Register reg("conc", make);

}  // namespace h
