// Drives mc::logging::Logger and mc::logging::LogReader in the driver's scratch directory.
#include <dirent.h>
#include <sys/stat.h>
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include "drv.h"
#include "common/logging/log_reader.h"
#include "common/logging/log_writer.h"
#include "common/matrix_defs.h"
#include "common/measurements/gnss_observation.h"
#include "common/measurements/imu.h"
using namespace drv;
using namespace mc;
using namespace mc::logging;
namespace fs = std::experimental::filesystem;

static UTCTime mk(long long sec, long long ns) { UTCTime t; t.sec = sec; t.nsec = ns; return t; }
static std::string T(const UTCTime& t)
{
    const int64_t s = t.sec;
    return "[" + std::to_string(s >> 40) + "," + std::to_string((s >> 20) & 0xFFFFF) + "," +
           std::to_string(s & 0xFFFFF) + "," + std::to_string((long long)t.nsec) + "]";
}
static std::string unhex(const std::string& h)
{
    std::string o;
    for (size_t i = 0; i + 1 < h.size(); i += 2) o += (char)strtol(h.substr(i, 2).c_str(), nullptr, 16);
    return o;
}
static std::string hex(const void* p, size_t n)
{
    std::string o;
    char b[4];
    for (size_t i = 0; i < n; ++i) { snprintf(b, 4, "%02x", ((const unsigned char*)p)[i]); o += b; }
    return o;
}
// a cursor over a record's bytes, as the fields lie one after the other
struct In { const char* p; template <class X> void operator()(X& x) { memcpy((void*)&x, p, sizeof x); p += sizeof x; }
            void operator()(UTCTime& t) { (*this)(t.sec); (*this)(t.nsec); } };
struct OutB { std::string s; template <class X> void operator()(X& x) { s += hex(&x, sizeof x); }
              void operator()(UTCTime& t) { (*this)(t.sec); (*this)(t.nsec); } };
using M34 = Eigen::Matrix<double, 3, 4>;
using M22f = Eigen::Matrix<float, 2, 2>;
template <class V, class F> void each(V& v, F&& f) { for (int i = 0; i < v.size(); ++i) f(v.data()[i]); }
template <class F> void each(Vec3& v, F& f) { for (int i = 0; i < 3; ++i) f(v[i]); }
// the eight record schemas; F visits the fields of a record in order
template <class F> void fld(F& f, double& x) { f(x); }
template <class F> void fld(F& f, float& x) { f(x); }
template <class F> void fld(F& f, int32_t& x) { f(x); }
template <class F> void fld(F& f, int64_t& x) { f(x); }
template <class F> void fld(F& f, int16_t& x) { f(x); }
template <class F> void fld(F& f, uint16_t& x) { f(x); }
template <class F> void fld(F& f, uint8_t& x) { f(x); }
template <class F> void fld(F& f, int8_t& x) { f(x); }
template <class F> void fld(F& f, uint32_t& x) { f(x); }
template <class F> void fld(F& f, uint64_t& x) { f(x); }
template <class F> void fld(F& f, UTCTime& x) { f(x); }
template <class F> void fld(F& f, Vec3& x) { each(x, f); }
template <class F> void fld(F& f, M34& x) { for (int i = 0; i < 12; ++i) f(x.data()[i]); }
template <class F> void fld(F& f, M22f& x) { for (int i = 0; i < 4; ++i) f(x.data()[i]); }
template <class F> void fld(F& f, meas::ImuSample& x) { f(x.t); each(x.accel, f); each(x.gyro, f); }
template <class F> void fld(F& f, meas::GnssObservation& x)
{ f(x.t); f(x.gnss_id); f(x.sat_num); f(x.freq); f(x.pseudorange); f(x.doppler); f(x.carrier_phase); }

struct SchemaBase
{
    virtual ~SchemaBase() = default;
    virtual void init(Logger&, int key) = 0;
    virtual void log(Logger&, int key, const UTCTime&, const std::string& bytes) = 0;
    virtual std::string get(StreamReader&) = 0;
    virtual std::string getNext(LogReader&, int key, UTCTime& t) = 0;
    size_t size;
};
template <class... A> struct Schema : SchemaBase
{
    std::array<std::string, sizeof...(A)> names;
    Schema(size_t sz, std::array<std::string, sizeof...(A)> n) : names(n) { size = sz; }
    void init(Logger& l, int key) override { l.initStream<A...>(key, names); }
    void log(Logger& l, int key, const UTCTime& t, const std::string& bytes) override
    {
        std::tuple<A...> v;
        In in{bytes.data()};
        std::apply([&](auto&... x) { (fld(in, x), ...); l.log(key, t, x...); }, v);
    }
    std::string get(StreamReader& r) override
    {
        std::tuple<A...> v;
        OutB o;
        std::apply([&](auto&... x) { r.get(x...); (fld(o, x), ...); }, v);
        return o.s;
    }
    std::string getNext(LogReader& r, int key, UTCTime& t) override
    {
        auto e = r.getNext<A...>(key);
        OutB o;
        t = e.t;
        std::apply([&](auto&... x) { (fld(o, x), ...); }, e.data);
        return o.s;
    }
};
static std::vector<std::unique_ptr<SchemaBase>>& schemas()
{
    static std::vector<std::unique_ptr<SchemaBase>> s;
    if (s.empty())
    {
        s.emplace_back(new Schema<double>(8, {"a"}));
        s.emplace_back(new Schema<float, int32_t, int64_t>(16, {"a", "b", "c"}));
        s.emplace_back(new Schema<Vec3, uint8_t>(25, {"v", "flag"}));
        s.emplace_back(new Schema<M34, int16_t, uint16_t>(100, {"m", "i", "u"}));
        s.emplace_back(new Schema<meas::ImuSample>(64, {"imu"}));
        s.emplace_back(new Schema<meas::GnssObservation>(50, {"obs"}));
        s.emplace_back(new Schema<uint64_t, uint32_t, int8_t>(13, {"x", "y", "z"}));
        s.emplace_back(new Schema<UTCTime, M22f>(32, {"when", "m"}));
    }
    return s;
}
static void flatten(const YAML::Node& n, const std::string& pre, std::vector<std::string>& out)
{
    if (n["type"] && n["type"].IsScalar())
    {
        std::string s = pre + ":" + n["type"].as<std::string>();
        if (n["rows"]) s += ":" + n["rows"].as<std::string>();
        if (n["cols"]) s += "x" + n["cols"].as<std::string>();
        out.push_back(s);
        return;
    }
    for (auto it = n.begin(); it != n.end(); ++it)
        flatten(it->second, pre.empty() ? it->first.as<std::string>() : pre + "." + it->first.as<std::string>(), out);
}
static std::string strs(const std::vector<std::string>& v)
{
    std::string o = "[";
    for (size_t i = 0; i < v.size(); ++i) o += (i ? "," : "") + J::quote(v[i]);
    return o + "]";
}
static std::string slurp(const std::string& f)
{
    std::ifstream i(f, std::ios::binary);
    std::stringstream s;
    s << i.rdbuf();
    return s.str();
}
struct LogInfo { std::unique_ptr<Logger> l; std::string path; std::map<int, int> schema; std::string amends; };

int main(int argc, char** argv)
{
    int segno = 0;
    return run(argc, argv, [&](const std::vector<Cmd>& seg) {
        std::map<std::string, LogInfo> logs;
        char cwd[4096];
        if (!getcwd(cwd, sizeof cwd)) _exit(98);
        const std::string root = std::string(cwd) + "/s" + std::to_string(getpid()) + "_" + std::to_string(segno++);
        mkdir(root.c_str(), 0755);
        auto nameOf = [&](const std::string& p) {
            for (auto& kv : logs) if (fs::path(kv.second.path) == fs::path(p)) return kv.first;
            return std::string("?") + p;
        };
        // schema of a key as seen from a log (following amendments)
        std::function<int(const std::string&, int)> schemaOf = [&](const std::string& n, int key) {
            auto& g = logs[n];
            if (g.schema.count(key)) return g.schema[key];
            return g.amends.empty() ? 0 : schemaOf(g.amends, key);
        };
        auto dump = [&](const std::string& n, J& j) {
            auto& g = logs[n];
            std::vector<std::string> files;
            for (auto& e : fs::directory_iterator(g.path)) files.push_back(e.path().filename().string());
            std::sort(files.begin(), files.end());
            j.s("log", n).as("files", files).s("dirid", fs::path(g.path).filename().string());
            YAML::Node m = YAML::LoadFile(g.path + "/manifest.yml");
            j.s("id", m["id"].as<std::string>());
            j.raw("start", T(mk(m["start_time"]["sec"].as<int64_t>(), m["start_time"]["nsec"].as<int64_t>())));
            j.raw("end", T(mk(m["end_time"]["sec"].as<int64_t>(), m["end_time"]["nsec"].as<int64_t>())));
            std::vector<int> keys;
            std::vector<std::string> names;
            if (m["keys"]) keys = m["keys"].as<std::vector<int>>();
            if (m["key_names"]) names = m["key_names"].as<std::vector<std::string>>();
            j.a("keys", keys).as("names", names);
            j.s("amends", m["amends"] ? nameOf(m["amends"].as<std::string>()) : "none");
            std::string st = "[";
            for (size_t i = 0; i < keys.size() && i < names.size(); ++i)
            {
                const std::string base = g.path + "/" + names[i];
                YAML::Node h = YAML::LoadFile(base + ".yml");
                std::vector<std::string> fields;
                flatten(h["format"], "", fields);
                std::string bytes = slurp(base + ".log"), recs;
                const size_t sz = 16 + schemas()[g.schema[keys[i]]]->size;
                size_t o = 0;
                for (; o + sz <= bytes.size(); o += sz)
                {
                    int64_t s, ns;
                    memcpy(&s, bytes.data() + o, 8);
                    memcpy(&ns, bytes.data() + o + 8, 8);
                    recs += std::string(recs.empty() ? "" : ",") + "{\"t\":" + T(mk(s, ns)) + ",\"p\":\"" + hex(bytes.data() + o + 16, sz - 16) + "\"}";
                }
                st += std::string(i ? "," : "") + "{\"key\":" + std::to_string(h["key"].as<int>()) + ",\"ks\":" + J::quote(h["key_string"].as<std::string>()) +
                      ",\"id\":" + J::quote(h["id"].as<std::string>()) + ",\"num\":" + std::to_string(h["num_records"].as<int>()) +
                      ",\"fields\":" + strs(fields) + ",\"rest\":" + std::to_string(bytes.size() - o) + ",\"recs\":[" + recs + "]}";
            }
            j.raw("streams", st + "]");
        };
        for (const Cmd& c : seg)
        {
            const std::string& op = c[0];
            if (op == "new") { J("new").emit(); }
            else if (op == "open")
            {
                // open <log> <dir> <sec> <ns>
                auto& g = logs[c[1]];
                g.l.reset(new Logger(mk(num(c[3]), num(c[4])), root + "/" + c[2]));
                g.path = root + "/" + c[2] + "/" + g.l->logId();
                J("open").s("log", c[1]).raw("t", T(mk(num(c[3]), num(c[4])))).emit();
            }
            else if (op == "reopen")
            {
                // reopen <old> <new> <dir> <sec> <ns>: the same Logger object opens another log
                auto& g = logs[c[2]];
                g.l = std::move(logs[c[1]].l);
                g.l->open(mk(num(c[4]), num(c[5])), root + "/" + c[3]);
                g.path = root + "/" + c[3] + "/" + g.l->logId();
                J("open").s("log", c[2]).raw("t", T(mk(num(c[4]), num(c[5])))).emit();
            }
            else if (op == "stream")
            {
                auto& g = logs[c[1]];
                const int key = num(c[2]), s = num(c[3]);
                schemas()[s]->init(*g.l, key);
                g.schema[key] = s;
                J("stream").s("log", c[1]).i("key", key).i("schema", s).emit();
            }
            else if (op == "log")
            {
                auto& g = logs[c[1]];
                const int key = num(c[2]);
                const UTCTime t = mk(num(c[3]), num(c[4]));
                schemas()[g.schema[key]]->log(*g.l, key, t, unhex(c[5]));
                J("log").s("log", c[1]).i("key", key).raw("t", T(t)).s("p", c[5]).emit();
            }
            else if (op == "amends")
            {
                // by its path, or as seen from the directory of the other
                if ((logs[c[1]].path.size() + c[2][0]) % 2)
                {
                    const auto inRoot = [&](std::string p) { if (p.compare(0, strlen(cwd), cwd) == 0) p.erase(0, strlen(cwd) + 1); return p; };
                    std::string up = inRoot(logs[c[2]].path);
                    for (const auto& part : fs::path(inRoot(logs[c[1]].path))) { (void)part; up = "../" + up; }
                    if (chdir(logs[c[1]].path.c_str())) _exit(98);
                    logs[c[1]].l->amends(up);
                    if (chdir(cwd)) _exit(98);
                }
                else logs[c[1]].l->amends(logs[c[2]].path);
                logs[c[1]].amends = c[2];
                J("amends").s("log", c[1]).s("of", c[2]).emit();
            }
            else if (op == "close")
            {
                const UTCTime t = mk(num(c[2]), num(c[3]));
                logs[c[1]].l->close(t);
                J("close").s("log", c[1]).raw("t", T(t)).emit();
            }
            else if (op == "destroy")
            {
                const UTCTime t0 = UTCTime::now();
                logs[c[1]].l.reset();
                J("destroy").s("log", c[1]).raw("t0", T(t0)).raw("t1", T(UTCTime::now())).emit();
            }
            else if (op == "dump") { J j("dump"); dump(c[1], j); j.emit(); }
            else if (op == "read")
            {
                // read <log> <keys|-> [<period ns> <fail at call>]...
                auto& g = logs[c[1]];
                fflush(stdout);
                const std::string cap = root + "/out.txt";
                int fd = ::open(cap.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644), old = dup(1);
                dup2(fd, 1);
                LogReader r(g.path);
                fflush(stdout);
                std::cout.flush();
                dup2(old, 1); close(fd); close(old);
                std::vector<std::string> am;
                {
                    std::istringstream ss(slurp(cap));
                    std::string line;
                    while (std::getline(ss, line))
                        if (line.compare(0, 6, "Amends") == 0) am.push_back(nameOf(line.substr(line.find('/'))));
                }
                std::vector<int> keys;
                std::istringstream ss(c[2]);
                std::string tok;
                while (std::getline(ss, tok, ',')) if (tok != "-") keys.push_back(num(tok));
                std::string periods = "[";
                for (size_t i = 3; i + 1 < c.size(); i += 2) periods += std::string(i > 3 ? "," : "") + T(mk(num(c[i]) / 1000000000, num(c[i]) % 1000000000));
                J("rbegin").s("log", c[1]).a("subs", keys).raw("periods", periods + "]").raw("start", T(r.startTime()))
                    .raw("end", T(r.endTime())).as("amended", am).s("path", nameOf(r.logPath())).emit();
                for (int key : keys)
                {
                    SchemaBase* s = schemas()[schemaOf(c[1], key)].get();
                    r.setCallback(key, [s](const UTCTime& t, int k, StreamReader& rd) {
                        J j("deliver");
                        j.i("key", k).raw("t", T(t)).raw("before", T(rd.nextStamp())).i("rkey", rd.key()).i("rnum", rd.numRecords());
                        const std::string p = s->get(rd);
                        j.s("p", p).b("last", rd.nextStamp() == MAX_TIME).raw("next", T(rd.nextStamp())).emit();
                    });
                }
                int idx = 0;
                for (size_t i = 3; i + 1 < c.size(); i += 2)
                {
                    ++idx;
                    const double period = num(c[i]) * 1e-9;
                    const int failAt = num(c[i + 1]);
                    auto n = std::make_shared<int>(0);
                    r.setMaintenanceCallback(period, [idx, failAt, n](const UTCTime& t) {
                        const bool fail = ++*n == failAt;
                        J("maint").i("i", idx).raw("t", T(t)).b("fail", fail).emit();
                        return fail ? Error::create("stop") : Error::none();
                    });
                }
                r.read();
                J("rend").emit();
            }
            else if (op == "pull")
            {
                // pull <log> <key> <n>: n records of one stream, one getNext at a time
                LogReader r(logs[c[1]].path);
                const int key = num(c[2]);
                SchemaBase* s = schemas()[schemaOf(c[1], key)].get();
                std::string recs;
                for (int i = 0; i < num(c[3]); ++i)
                {
                    UTCTime t;
                    const std::string p = s->getNext(r, key, t);
                    recs += std::string(i ? "," : "") + "{\"t\":" + T(t) + ",\"p\":\"" + p + "\"}";
                }
                J("pull").s("log", c[1]).i("key", key).raw("recs", "[" + recs + "]").emit();
            }
        }
        logs.clear();
        fs::remove_all(root);
    });
}
