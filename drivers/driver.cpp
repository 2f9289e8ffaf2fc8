// The driver process: answers unit commands in process and runs the whole
// quickbook program in a forked child ("run").
#include "driver.hpp"
#include "util.hpp"

#include <errno.h>
#include <fcntl.h>
#include <grp.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <iostream>

int quickbook_main(int argc, char* argv[]);

namespace qv
{
    std::map<std::string, handler>& handlers()
    {
        static std::map<std::string, handler> h;
        return h;
    }
}

static int in_fd = 0, out_fd = 1;

static bool read_all(void* p, size_t n)
{
    char* c = static_cast<char*>(p);
    while (n) {
        ssize_t r = read(in_fd, c, n);
        if (r < 0 && errno == EINTR) continue;
        if (r <= 0) return false;
        c += r;
        n -= r;
    }
    return true;
}

static void write_all(void const* p, size_t n)
{
    char const* c = static_cast<char const*>(p);
    while (n) {
        ssize_t r = write(out_fd, c, n);
        if (r < 0 && errno == EINTR) continue;
        if (r <= 0) _exit(3);
        c += r;
        n -= r;
    }
}

static void send(qv::fields const& f)
{
    std::string buf;
    for (qv::fields::const_iterator it = f.begin(); it != f.end(); ++it) {
        unsigned n = it->size();
        buf.append(reinterpret_cast<char*>(&n), 4);
        buf += *it;
    }
    unsigned n = buf.size();
    std::string head(reinterpret_cast<char*>(&n), 4);
    buf = head + buf;
    write_all(buf.data(), buf.size());
}

static bool receive(qv::fields& f)
{
    f.clear();
    unsigned n;
    if (!read_all(&n, 4)) return false;
    std::string buf(n, '\0');
    if (n && !read_all(&buf[0], n)) return false;
    size_t pos = 0;
    while (pos + 4 <= buf.size()) {
        unsigned k;
        memcpy(&k, buf.data() + pos, 4);
        pos += 4;
        f.push_back(buf.substr(pos, k));
        pos += k;
    }
    return true;
}

static double now()
{
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

// Leaves the stack and the heap in a state that depends on `seed`, so that a
// result that depends on either differs between runs.
__attribute__((noinline)) static void stir_stack(unsigned seed)
{
    volatile unsigned char junk[96 << 10];
    for (size_t i = 0; i < sizeof junk; ++i)
        junk[i] = (unsigned char)(seed * 37 + (seed & 1 ? i : 0));
}

static void stir(unsigned seed)
{
    std::vector<void*> keep;
    unsigned x = seed * 2654435761u + 1;
    for (int i = 0; i < 1500; ++i) {
        x = x * 1664525u + 1013904223u;
        void* p = malloc(1 + (x >> 8) % 700);
        if (p) memset(p, (int)(x >> 24), 1 + (x >> 8) % 700);
        if ((x >> 4) & 1)
            free(p);
        else
            keep.push_back(p);
    }
    for (size_t i = 0; i < keep.size(); i += 2 + seed % 3)
        free(keep[i]);
    stir_stack(seed);
}

// run: cwd, timeout_ms, uid, args...   (run:<n>: after stirring the memory)
// ->   kind (exit|signal|timeout), code, stdout, stderr
static qv::fields run(qv::fields const& in)
{
    std::string cwd = in.at(1);
    double timeout = qv::to_num(in.at(2)) / 1000.0;
    int uid = qv::to_num(in.at(3));
    std::vector<std::string> args(in.begin() + 4, in.end());

    int po[2], pe[2];
    if (pipe(po) || pipe(pe)) _exit(4);

    std::cout.flush();
    std::cerr.flush();
    pid_t pid = fork();
    if (pid < 0) _exit(5);
    if (pid == 0) {
        setpgid(0, 0);
        int devnull = open("/dev/null", O_RDONLY);
        dup2(devnull, 0);
        dup2(po[1], 1);
        dup2(pe[1], 2);
        for (int fd = 3; fd < 64; ++fd)
            close(fd);
        rlimit rl;
        rl.rlim_cur = rl.rlim_max = 0;
        setrlimit(RLIMIT_CORE, &rl);
        rl.rlim_cur = rl.rlim_max = 64 << 20;
        setrlimit(RLIMIT_FSIZE, &rl);
        if (uid > 0) {
            if (geteuid() == 0) {
                if (setgroups(0, 0)) {}
                if (setgid(uid)) {}
                if (setuid(uid)) {}
            }
        }
        umask(0);
        if (chdir(cwd.c_str())) _exit(90);
        if (in[0] == "forked") {
            // A unit command, with its result packed on standard output.
            int rc = 0;
            std::string r;
            try {
                qv::handler h = qv::handlers().at(args.at(0));
                r = qv::pack(h(qv::fields(args.begin() + 1, args.end())));
            } catch (std::exception& e) {
                r = e.what();
                rc = 77;
            }
            std::cout.flush();
            out_fd = 1;
            write_all(r.data(), r.size());
            _exit(rc);
        }
        std::vector<char*> argv;
        for (size_t i = 0; i < args.size(); ++i)
            argv.push_back(&args[i][0]);
        argv.push_back(0);
        if (in[0].size() > 4) stir(qv::to_num(in[0].substr(4)));
        int rc = quickbook_main(args.size(), &argv[0]);
        std::cout.flush();
        std::cerr.flush();
        fflush(0);
        _exit(rc);
    }
    close(po[1]);
    close(pe[1]);
    std::string o, e;
    size_t const limit = 4 << 20;
    double end = now() + timeout;
    bool timed_out = false;
    bool oo = true, eo = true;
    static char buf[1 << 16];
    while (oo || eo) {
        double left = end - now();
        if (left <= 0) {
            timed_out = true;
            break;
        }
        pollfd fds[2];
        int n = 0;
        if (oo) {
            fds[n].fd = po[0];
            fds[n].events = POLLIN;
            ++n;
        }
        if (eo) {
            fds[n].fd = pe[0];
            fds[n].events = POLLIN;
            ++n;
        }
        int r = poll(fds, n, int(left * 1000) + 1);
        if (r < 0 && errno != EINTR) break;
        for (int i = 0; r > 0 && i < n; ++i) {
            if (!fds[i].revents) continue;
            ssize_t k = read(fds[i].fd, buf, sizeof buf);
            bool is_out = fds[i].fd == po[0];
            if (k <= 0)
                (is_out ? oo : eo) = false;
            else {
                std::string& s = is_out ? o : e;
                if (s.size() < limit) s.append(buf, k);
            }
        }
    }
    int status = 0;
    if (timed_out) kill(-pid, SIGKILL), kill(pid, SIGKILL);
    while (!timed_out) {
        pid_t w = waitpid(pid, &status, WNOHANG);
        if (w == pid) break;
        if (now() > end) {
            timed_out = true;
            kill(-pid, SIGKILL);
            kill(pid, SIGKILL);
            break;
        }
        usleep(200);
    }
    if (timed_out) waitpid(pid, &status, 0);
    close(po[0]);
    close(pe[0]);
    qv::fields out;
    if (timed_out) {
        out.push_back("timeout");
        out.push_back("0");
    }
    else if (WIFEXITED(status)) {
        out.push_back("exit");
        out.push_back(qv::num(WEXITSTATUS(status)));
    }
    else {
        out.push_back("signal");
        out.push_back(qv::num(WTERMSIG(status)));
    }
    out.push_back(o);
    out.push_back(e);
    return out;
}

int main()
{
    // Keep the protocol away from anything the code under test prints.
    in_fd = dup(0);
    out_fd = dup(1);
    int devnull = open("/dev/null", O_RDWR);
    dup2(devnull, 0);
    dup2(devnull, 1);
    fcntl(in_fd, F_SETFD, FD_CLOEXEC);
    fcntl(out_fd, F_SETFD, FD_CLOEXEC);
    signal(SIGPIPE, SIG_IGN);

    qv::fields in;
    while (receive(in)) {
        if (in.empty()) continue;
        qv::fields out;
        if (in[0] == "run" || in[0] == "forked" || in[0].compare(0, 4, "run:") == 0) {
            out = run(in);
        }
        else if (in[0] == "commands") {
            out.push_back("ok");
            for (std::map<std::string, qv::handler>::iterator it =
                     qv::handlers().begin();
                 it != qv::handlers().end(); ++it)
                out.push_back(it->first);
        }
        else {
            std::map<std::string, qv::handler>::iterator h =
                qv::handlers().find(in[0]);
            if (h == qv::handlers().end()) {
                out.push_back("unknown");
            }
            else {
                try {
                    qv::fields args(in.begin() + 1, in.end());
                    out.push_back("ok");
                    qv::fields r = h->second(args);
                    out.insert(out.end(), r.begin(), r.end());
                } catch (std::exception& e) {
                    out.clear();
                    out.push_back("exception");
                    out.push_back(e.what());
                } catch (...) {
                    out.clear();
                    out.push_back("exception");
                    out.push_back("?");
                }
            }
        }
        send(out);
    }
    _exit(0);
}
