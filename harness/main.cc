#include "core.hpp"
#include <csignal>
#include <unistd.h>

namespace h {
std::map<std::string, Factory> & factories() {
    static std::map<std::string, Factory> f;
    return f;
}
}

static std::string buffer;
static void flush_out() {
    size_t p = 0;
    while (p < buffer.size()) {
        ssize_t n = write(1, buffer.data() + p, buffer.size() - p);
        if (n <= 0) _exit(3);
        p += n;
    }
    buffer.clear();
}
static void on_signal(int sig) {
    flush_out();
    if (sig == SIGTERM) _exit(0);
    char s[64];
    int n = snprintf(s, sizeof s, "{\"e\":\"crash\",\"sig\":%d}\n", sig);
    if (write(1, s, n) < 0) _exit(3);
    _exit(0);
}

int main(int, char **) {
    using namespace h;
    int sigs[] = {SIGTERM, SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL};
    for (int s : sigs) signal(s, on_signal);
    std::unique_ptr<Runner> run;
    std::string line;
    while (std::getline(std::cin, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream is(line);
        Tok t;
        std::string w;
        while (is >> w) t.push_back(w);
        Out o;
        o.str("e", t[0]);
        try {
            if (t[0] == "session") {
                auto f = factories().find(t.at(1));
                if (f == factories().end()) throw ScriptError("no runner " + t[1]);
                run.reset(f->second());
                o.str("m", t[1]);
                for (size_t i = 2; i < t.size(); ++i) {
                    size_t p = t[i].find('=');
                    o.str(t[i].substr(0, p).c_str(), t[i].substr(p + 1));
                }
            } else if (!run || !run->cmd(t, o)) {
                throw ScriptError("bad command: " + line);
            }
        } catch (const ScriptError & e) {
            flush_out();
            std::cerr << "script error: " << e.what() << std::endl;
            return 2;
        } catch (const std::logic_error & e) {
            if (!strncmp(e.what(), "harness", 7)) {
                flush_out();
                std::cerr << "script error: " << e.what() << " in " << line << std::endl;
                return 2;
            }
            o = Out();
            o.str("e", "err"); o.str("op", t[0]); o.raw("a", toks(t)); o.str("line", line);
            o.str("what", std::string(e.what()).substr(0, 200));
        } catch (const std::exception & e) {
            o = Out();
            o.str("e", "err"); o.str("op", t[0]); o.raw("a", toks(t)); o.str("line", line);
            o.str("what", std::string(e.what()).substr(0, 200));
        }
        buffer += o.done();
        buffer += "\n";
        buffer += o.tail;
        if (buffer.size() > 1 << 16) flush_out();
    }
    flush_out();
    return 0;
}
