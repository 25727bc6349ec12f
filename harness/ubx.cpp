// The receiver protocol: parser and sender.
//   new K                       K: payload bytes recorded of every message told to a listener
//   sub L C T                   listener L subscribes
//   rx hex                      one chunk arrives (hex "-": an empty one)
//   restart
//   send C T hex                sendMessage
//   enable C T RATE | configure VERSION LAYER DATA KEY SIZE | getcfg VERSION LAYER KEY | rate MS | dyn | nmea | survey
//   version hex                 getVersion; the reply arrives as soon as the poll has been sent ("-": none)
#include "drv.h"
#include "parsers/ubx/ubx.h"
#include <memory>
#include <new>
using namespace mc::parsers::ublox;
static std::vector<uint8_t> bytes(const std::string& h)
{
    std::vector<uint8_t> b;
    if (h != "-") for (size_t k = 0; k + 1 < h.size(); k += 2) b.push_back((uint8_t)strtol(h.substr(k, 2).c_str(), nullptr, 16));
    return b;
}
struct Ear : UbxListener
{
    int me = 0;
    size_t keep = 0;
    std::string* log = nullptr;
    void gotUbx(const uint8_t c, const uint8_t t, const UbxMessage& m) override
    {
        std::string& s = *log;
        s += (s.size() > 1 ? ",{\"l\":" : "{\"l\":") + std::to_string(me) + ",\"c\":" + std::to_string(c) + ",\"t\":" + std::to_string(t) + ",\"b\":[";
        for (size_t k = 0; k < keep; ++k) s += (k ? "," : "") + std::to_string(m.buffer[k]);
        s += "]}";
    }
};
static void feed(async_comm::Comm& port, const std::vector<uint8_t>& b)
{
    std::unique_ptr<uint8_t[]> exact(new uint8_t[b.size()]);   // exactly as large as the chunk
    std::copy(b.begin(), b.end(), exact.get());
    port.listener->receive_callback(exact.get(), b.size());
}
static void run(const std::vector<drv::Cmd>& seg)
{
    async_comm::Comm port;
    std::string heard = "[";
    Ear ear[2];
    // whatever was in the memory before must not show
    void* mem = ::operator new(sizeof(Ubx));
    memset(mem, 0x5A, sizeof(Ubx));
    std::unique_ptr<Ubx> u(new (mem) Ubx(port));
    std::unique_ptr<UbxMessage> msg(new UbxMessage);
    for (int k = 0; k < 2; ++k) { ear[k].me = k + 1; ear[k].log = &heard; u->registerListener(&ear[k]); }
    for (const auto& c : seg)
    {
        heard = "[";
        port.sent.clear();
        drv::J j(c[0] == "rx" || c[0] == "sub" || c[0] == "new" || c[0] == "send" || c[0] == "restart" ? c[0] : "req");
        if (c[0] == "new") { for (auto& e : ear) e.keep = drv::num(c[1]); j.emit(); continue; }
        bool threw = false, ok = true;
        std::vector<uint8_t> reply;
        try
        {
            if (c[0] == "sub") { ear[drv::num(c[1]) - 1].subscribe(drv::num(c[2]), drv::num(c[3])); j.i("l", drv::num(c[1])).i("c", drv::num(c[2])).i("t", drv::num(c[3])); }
            else if (c[0] == "rx") { j.a("bytes", bytes(c[1])); feed(port, bytes(c[1])); }
            else if (c[0] == "restart") u->restart();
            else if (c[0] == "send")
            {
                const auto p = bytes(c[3]);
                memset(msg->buffer, 0x77, sizeof(msg->buffer));
                std::copy(p.begin(), p.end(), msg->buffer);
                j.i("c", drv::num(c[1])).i("t", drv::num(c[2])).a("p", p);
                ok = u->sendMessage(drv::num(c[1]), drv::num(c[2]), *msg, p.size());
            }
            else
            {
                j.s("kind", c[0]);
                if (c[0] == "enable") { u->enableMessage(drv::num(c[1]), drv::num(c[2]), drv::num(c[3])); j.i("c", drv::num(c[1])).i("t", drv::num(c[2])).i("rate", drv::num(c[3])); }
                else if (c[0] == "configure")
                {
                    u->configure(drv::num(c[1]), drv::num(c[2]), drv::num(c[3]), drv::num(c[4]), drv::num(c[5]));
                    j.i("version", drv::num(c[1])).i("layer", drv::num(c[2])).w("data", drv::num(c[3])).w("key", drv::num(c[4])).i("size", drv::num(c[5]));
                }
                else if (c[0] == "getcfg") { u->getConfiguration(drv::num(c[1]), drv::num(c[2]), drv::num(c[3])); j.i("version", drv::num(c[1])).i("layer", drv::num(c[2])).w("key", drv::num(c[3])); }
                else if (c[0] == "rate") { u->setNavRate(drv::num(c[1])); j.i("ms", drv::num(c[1])); }
                else if (c[0] == "dyn") u->setDynamicMode();
                else if (c[0] == "nmea") u->disableNmea();
                else if (c[0] == "survey") u->startSurveyIn();
                else if (c[0] == "version")
                {
                    reply = bytes(c[1]);
                    bool done = false;
                    port.after_send = [&]() {
                        if (done || port.sent.size() < 8) return;
                        done = true;
                        if (c[1] != "-") feed(port, reply);
                    };
                    ok = u->getVersion();
                    port.after_send = nullptr;
                    j.a("bytes", reply);
                }
            }
        }
        catch (const std::exception&) { threw = true; }
        const char* name = u->moduleVame();
        j.b("ok", ok).b("threw", threw).a("sent", port.sent).raw("msgs", heard + "]").i("n", u->numMessagesReceived()).b("busy", u->parsingMessage());
        j.i("major", u->majorVersion()).i("minor", u->minorVersion()).a("mod", std::string(name, strnlen(name, 40)));
        j.emit();
    }
}
int main(int argc, char** argv) { return drv::run(argc, argv, run); }
