// Common part of the drivers: reads a workload (one command per line; a line starting with "new"
// begins a segment), executes it on the real code and records one JSON event per command.
// Segments run in forked children, so that a crash or an exit() of the code under test is recorded
// as an event ("crash") and does not take the driver down.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cinttypes>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

namespace drv {
struct Shared { volatile int seg; volatile int line; };
inline Shared*& shared() { static Shared* s = nullptr; return s; }
inline int& outFd() { static int fd = -1; return fd; }

// One JSON object
class J
{
 public:
    explicit J(const std::string& op) { s_ = "{\"seg\":" + std::to_string(shared()->seg) + ",\"op\":\"" + op + "\""; }
    J& i(const char* k, long long v) { s_ += key(k) + std::to_string(v); return *this; }
    J& b(const char* k, bool v) { s_ += key(k) + (v ? "true" : "false"); return *this; }
    J& s(const char* k, const std::string& v) { s_ += key(k) + quote(v); return *this; }
    template <typename V> J& a(const char* k, const V& v)
    {
        s_ += key(k) + "[";
        bool first = true;
        for (const auto& x : v) { if (!first) s_ += ","; first = false; s_ += std::to_string((long long)x); }
        s_ += "]";
        return *this;
    }
    J& as(const char* k, const std::vector<std::string>& v)
    {
        s_ += key(k) + "[";
        for (size_t n = 0; n < v.size(); ++n) s_ += (n ? "," : "") + quote(v[n]);
        s_ += "]";
        return *this;
    }
    J& raw(const char* k, const std::string& v) { s_ += key(k) + v; return *this; }
    // 64 bit value as two TLC-sized halves [hi, lo] base 2^16 limbs, most significant first
    J& w(const char* k, uint64_t v)
    {
        s_ += key(k) + limbs(v);
        return *this;
    }
    static std::string limbs(uint64_t v)
    {
        std::string o = "[";
        for (int n = 3; n >= 0; --n) o += std::to_string((v >> (16 * n)) & 0xFFFF) + (n ? "," : "]");
        return o;
    }
    void emit()
    {
        s_ += "}\n";
        size_t off = 0;
        while (off < s_.size())
        {
            ssize_t n = ::write(outFd(), s_.data() + off, s_.size() - off);
            if (n <= 0) _exit(99);
            off += n;
        }
    }
    static std::string quote(const std::string& v)
    {
        std::string o = "\"";
        for (unsigned char c : v)
        {
            if (c == '"' || c == '\\') { o += '\\'; o += c; }
            else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
            else o += c;
        }
        return o + "\"";
    }
 private:
    std::string key(const char* k) { return std::string(",\"") + k + "\":"; }
    std::string s_;
};

using Cmd = std::vector<std::string>;
inline long long num(const std::string& s) { return strtoll(s.c_str(), nullptr, 0); }

// runSegment executes the commands of one segment
inline int run(int argc, char** argv, const std::function<void(const std::vector<Cmd>&)>& runSegment,
               int timeout_s = 60)
{
    if (argc < 3) return 2;
    std::vector<std::vector<Cmd>> segs;
    std::ifstream in(argv[1]);
    std::string line;
    while (std::getline(in, line))
    {
        std::istringstream ss(line);
        Cmd c;
        std::string tok;
        while (ss >> tok) c.push_back(tok);
        if (c.empty()) continue;
        if (c[0] == "new" || segs.empty()) segs.emplace_back();
        segs.back().push_back(c);
    }
    outFd() = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    shared() = (Shared*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    size_t next = 0;
    while (next < segs.size())
    {
        shared()->seg = next;
        shared()->line = 0;
        pid_t p = fork();
        if (p == 0)
        {
            int nul = open("/dev/null", O_RDWR);
            dup2(nul, 0); dup2(nul, 1); dup2(nul, 2);
            for (size_t k = next; k < segs.size(); ++k)
            {
                shared()->seg = k;
                // processor time, so that a busy machine does not look like a hang
                const itimerval cpu = {{0, 0}, {timeout_s, 0}};
                setitimer(ITIMER_PROF, &cpu, nullptr);
                alarm(4 * timeout_s);
                runSegment(segs[k]);
            }
            shared()->line = 1;
            _exit(0);
        }
        int st = 0;
        waitpid(p, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && shared()->line == 1) break;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 99) return 3;
        J("crash").i("status", WIFSIGNALED(st) ? 1000 + WTERMSIG(st) : WEXITSTATUS(st)).emit();
        next = shared()->seg + 1;
    }
    return 0;
}
}  // namespace drv
