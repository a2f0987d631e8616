// Zygote: reads plans from stdin, forks one child per simulated execution.
// Protocol: "RUN <len>\n<plan>"  ->  "<status> <len>\n<output>"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <unistd.h>
#include <signal.h>
#include <sched.h>
#include <poll.h>
#include <errno.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <time.h>
#include "rt.h"
void interpRun(const char* plan);
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static bool readAll(int fd, char* p, size_t n) { while (n) { ssize_t r = read(fd, p, n); if (r <= 0) { if (r < 0 && errno == EINTR) continue; return false; } p += r; n -= r; } return true; }
static bool writeAll(int fd, const char* p, size_t n) { while (n) { ssize_t r = write(fd, p, n); if (r <= 0) { if (r < 0 && errno == EINTR) continue; return false; } p += r; n -= r; } return true; }
static void onchld(int) {}
int main(int argc, char** argv)
{
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("VSIM_NOASLR")) {
        setenv("VSIM_NOASLR", "1", 1);
        if (personality(pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    const size_t CAP = 4u << 20;
    char* shm = (char*)mmap(nullptr, CAP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (shm == MAP_FAILED) return 3;
    double limit = argc > 1 ? atof(argv[1]) : 20;
    sigset_t bs; sigemptyset(&bs); sigaddset(&bs, SIGCHLD); sigprocmask(SIG_BLOCK, &bs, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onchld; sigaction(SIGCHLD, &sa, nullptr);
    if (argc > 2) { cpu_set_t c; CPU_ZERO(&c); CPU_SET(atoi(argv[2]), &c); sched_setaffinity(0, sizeof c, &c); }
    con_install();
    std::string plan;
    for (;;) {
        char hdr[64]; size_t h = 0;
        for (;;) { if (!readAll(0, hdr + h, 1)) return 0; if (hdr[h] == '\n') break; if (++h >= sizeof hdr - 1) return 2; }
        hdr[h] = 0;
        size_t len = strtoul(hdr + 4, nullptr, 10);
        plan.resize(len);
        if (!readAll(0, &plan[0], len)) return 0;
        shm[0] = 0;
        pid_t p = fork();
        if (p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            sigprocmask(SIG_UNBLOCK, &bs, nullptr);
            signal(SIGCHLD, SIG_DFL);
            struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
            int dn = 1; (void)dn;
            close(0);
            dup2(2, 1);
            rt_out_init(shm, CAP);
            interpRun(plan.c_str());
            _exit(0);
        }
        double t0 = now(); int st = 0; bool done = false, killed = false;
        while (!done) {
            pid_t r = waitpid(p, &st, WNOHANG);
            if (r == p) { done = true; break; }
            double left = limit - (now() - t0);
            if (left <= 0 && !killed) { kill(p, SIGKILL); killed = true; }
            timespec ts = { 0, 200000000 };
            siginfo_t si; sigtimedwait(&bs, &si, &ts);
        }
        size_t n = strnlen(shm, CAP);
        char status[64];
        if (killed) snprintf(status, sizeof status, "hang");
        else if (WIFSIGNALED(st)) snprintf(status, sizeof status, "sig%d", WTERMSIG(st));
        else snprintf(status, sizeof status, "exit%d", WEXITSTATUS(st));
        char out[128]; int m = snprintf(out, sizeof out, "%s %zu\n", status, n);
        if (!writeAll(1, out, m) || !writeAll(1, shm, n)) return 0;
    }
}
