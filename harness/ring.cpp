// Drives mc::CircularBuffer. argv[3]: "view" (contents through the whole interface) or "life"
// (element objects constructed / destroyed).
#include "drv.h"
#include <algorithm>
#include <map>
#include <memory>
#include "common/circular_buffer.h"

using namespace drv;
static std::map<const void*, int> g_live;
static long g_misuse = 0;

struct Tracked
{
    explicit Tracked(int v) : v_(v) { born(); }
    Tracked(const Tracked& o) : v_(o.get()) { born(); }
    Tracked(Tracked&& o) : v_(o.get()) { born(); }
    Tracked& operator=(const Tracked& o) { return set(o.get()); }
    Tracked& operator=(Tracked&& o) { return set(o.get()); }
    ~Tracked()
    {
        auto it = g_live.find(this);
        if (it == g_live.end()) ++g_misuse; else g_live.erase(it);
    }
    int get() const
    {
        auto it = g_live.find(this);
        if (it == g_live.end()) { ++g_misuse; return -999; }
        return it->second;
    }
    Tracked& set(int v)
    {
        auto it = g_live.find(this);
        if (it == g_live.end()) ++g_misuse; else it->second = v;
        v_ = v;
        return *this;
    }
    void born() { if (!g_live.emplace(this, v_).second) { ++g_misuse; g_live[this] = v_; } }
    int v_;
    int pad_[3];
};
struct Plain  // value that checks itself
{
    Plain() : v(0), c(~0) {}
    Plain(int x) : v(x), c(~x) {}
    int v, c;
    int get() const { return c == ~v ? v : -777; }
};

template <typename T, int N> struct Box
{
    using Buf = mc::CircularBuffer<T, N>;
    std::map<int, Buf*> bufs;
    bool life;

    static void* raw()
    {
        void* p = aligned_alloc(64, (sizeof(Buf) + 63) / 64 * 64);
        memset(p, 0xA5, sizeof(Buf));
        return p;
    }
    std::string look(int name, Buf& b)
    {
        const Buf& c = b;
        std::vector<int> at, fwd, post, plus, cfwd, rev, minus, pluseq, minuseq, cat, pos, diff, lt, le, gt, ge, eq, ne;
        const int n = (int)b.size();
        const int cap = N - 1;
        const int m = std::min(std::max(n, 0), cap);
        for (int i = 0; i < m; ++i) { at.push_back(b[i].get()); cat.push_back(i % 2 ? c.at(i).get() : (i % 4 ? b.at(i).get() : c[i].get())); }
        int guard = 0;
        for (auto it = b.begin(); it != b.end() && guard++ < N; ++it) fwd.push_back((*it).get());
        guard = 0;
        for (auto it = b.begin(); it != b.end() && guard++ < N; it++) post.push_back(it->get());
        guard = 0;
        for (const auto& x : c) { if (guard++ >= N) break; cfwd.push_back(x.get()); }
        for (int i = 0; i < m; ++i) plus.push_back((*(b.begin() + i)).get());
        for (int i = 0; i < m; ++i) minus.push_back((*(b.end() - (m - i))).get());
        for (int i = 0; i < m; ++i) { auto it = c.begin(); it += i; pluseq.push_back((*it).get()); }
        for (int i = 0; i < m; ++i) { auto it = c.end(); it -= (m - i); minuseq.push_back(it->get()); }
        { auto it = c.end(); for (int i = 0; i < m; ++i) { if (i % 2) it--; else --it; rev.push_back((*it).get()); } }
        std::reverse(rev.begin(), rev.end());
        if (m <= 4) for (int i = 0; i <= m; ++i) pos.push_back(i);
        else pos = {0, 1, m / 2, m - 1, m};
        for (int p : pos)
            for (int q : pos)
            {
                auto x = c.begin() + p, y = c.begin() + q;
                if (p == m) x = c.end();
                if (q == m) y = c.end();
                diff.push_back(x - y);
                lt.push_back(x < y); le.push_back(x <= y); gt.push_back(x > y); ge.push_back(x >= y);
                eq.push_back(x == y); ne.push_back(x != y);
            }
        std::string s = "{\"b\":" + std::to_string(name) + ",\"size\":" + std::to_string(n);
        auto bo = [&](const char* k, bool v) { s += std::string(",\"") + k + "\":" + (v ? "true" : "false"); };
        bo("empty", c.empty()); bo("full", c.full());
        s += ",\"max\":" + std::to_string(c.max_size() == c.capacity() ? (int)c.capacity() : -1);
        const bool some = m > 0;
        s += ",\"front\":" + std::to_string(some ? (b.front().get() == c.front().get() ? c.front().get() : -5) : 0);
        s += ",\"back\":" + std::to_string(some ? (b.back().get() == c.back().get() ? c.back().get() : -5) : 0);
        auto ar = [&](const char* k, const std::vector<int>& v) {
            s += std::string(",\"") + k + "\":[";
            for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]);
            s += "]";
        };
        ar("at", at); ar("fwd", fwd); ar("post", post); ar("plus", plus); ar("cfwd", cfwd); ar("rev", rev);
        ar("minus", minus); ar("pluseq", pluseq); ar("minuseq", minuseq); ar("cat", cat); ar("pos", pos);
        ar("diff", diff); ar("lt", lt); ar("le", le); ar("gt", gt); ar("ge", ge); ar("eq", eq); ar("ne", ne);
        return s + "}";
    }
    void obs(J& j)
    {
        if (life)
        {
            std::vector<int> v;
            for (auto& kv : g_live) v.push_back(kv.second);
            std::sort(v.begin(), v.end());
            j.s("kind", "life").i("misuse", g_misuse).a("live", v);
        }
        else
        {
            std::string s = "[";
            for (auto& kv : bufs) s += (s.size() > 1 ? "," : "") + look(kv.first, *kv.second);
            j.s("kind", "view").raw("view", s + "]");
        }
        j.emit();
    }
    void run(const std::vector<Cmd>& seg)
    {
        g_live.clear();
        g_misuse = 0;
        for (size_t k = 1; k < seg.size(); ++k)
        {
            const Cmd& c = seg[k];
            const std::string& op = c[0];
            const int b = num(c[1]);
            J j(op);
            j.i("b", b);
            if (op == "create") bufs[b] = new (raw()) Buf();
            else if (op == "destroy") { bufs[b]->~Buf(); bufs.erase(b); }  // storage never reused
            else if (op == "clear") bufs[b]->clear();
            else if (op == "pop_back") bufs[b]->pop_back();
            else if (op == "pop_front") bufs[b]->pop_front();
            else if (op == "copy") { j.i("c", num(c[2])); bufs[num(c[2])] = new (raw()) Buf(*bufs[b]); }
            else if (op == "assign") { j.i("c", num(c[2])); *bufs[num(c[2])] = *bufs[b]; }
            else if (op == "modify")
            {
                const int i = num(c[2]), v = num(c[3]);
                j.i("i", i).i("v", v);
                if (i % 2) bufs[b]->at(i) = T(v); else *(bufs[b]->begin() + i) = T(v);
            }
            else if (op == "own_back" || op == "own_front")
            {
                const int i = num(c[2]);
                const bool back = op == "own_back", place = c.size() > 3 && num(c[3]);
                j.i("i", i);
                const T& x = (*bufs[b])[i];
                if (back && !place) bufs[b]->push_back(x);
                else if (back) bufs[b]->emplace_back(x);
                else if (!place) bufs[b]->push_front(x);
                else bufs[b]->emplace_front(x);
            }
            else
            {
                const int v = num(c[2]);
                j.i("v", v);
                if (op == "push_back") { T x(v); bufs[b]->push_back(x); }
                else if (op == "push_front") { T x(v); bufs[b]->push_front(x); }
                else if (op == "emplace_back") bufs[b]->emplace_back(v);
                else if (op == "emplace_front") bufs[b]->emplace_front(v);
            }
            obs(j);
        }
    }
};
template <int N> void go(const std::vector<Cmd>& seg, bool life)
{
    J("new").i("cap", N - 1).emit();
    if (life) { Box<Tracked, N> b; b.life = true; b.run(seg); }
    else { Box<Plain, N> b; b.life = false; b.run(seg); }
}
int main(int argc, char** argv)
{
    const bool life = argc > 3 && std::string(argv[3]) == "life";
    return run(argc, argv, [&](const std::vector<Cmd>& seg) {
        switch (num(seg[0][1]))
        {
        case 1: go<2>(seg, life); break;
        case 2: go<3>(seg, life); break;
        case 3: go<4>(seg, life); break;
        case 4: go<5>(seg, life); break;
        case 7: go<8>(seg, life); break;
        case 29: go<30>(seg, life); break;
        case 99: go<100>(seg, life); break;
        default: _exit(98);
        }
    });
}
