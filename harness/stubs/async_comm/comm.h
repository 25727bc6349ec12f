// Stand-in for the serial port library (not available here): it records what is sent.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <vector>
namespace async_comm
{
class CommListener
{
 public:
    virtual ~CommListener() = default;
    virtual void receive_callback(const uint8_t* buf, size_t size) = 0;
};
class Comm
{
 public:
    virtual ~Comm() = default;
    void register_listener(CommListener& l) { listener = &l; }
    void send_bytes(const uint8_t* src, size_t len)
    {
        sent.insert(sent.end(), src, src + len);
        if (after_send) after_send();
    }
    void send_byte(uint8_t data) { send_bytes(&data, 1); }
    CommListener* listener = nullptr;
    std::vector<uint8_t> sent;
    std::function<void()> after_send;
};
}  // namespace async_comm
