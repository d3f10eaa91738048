// C28: typed output streams.  A value is reported as the bytes of its big-endian form, obtained by
// shifting.  Long texts are n copies of one letter, reported by length.
#include "paimon/common/io/data_output_stream.h"
#include "paimon/common/io/memory_segment_output_stream.h"
#include "paimon/common/memory/memory_segment_utils.h"
#include "paimon/io/byte_array_input_stream.h"
#include "paimon/io/data_input_stream.h"
#include "paimon/memory/bytes.h"
#include "vtrace.h"

using namespace paimon;  // NOLINT
using vt::BytesOf;
using vt::J;
using vt::Out;

template <typename T>
static std::vector<int> Be(T v) {
    uint64_t u = 0;
    memcpy(&u, &v, sizeof(T));
    std::vector<int> o;
    for (int i = sizeof(T) - 1; i >= 0; i--) o.push_back((u >> (8 * i)) & 0xff);
    return o;
}

class Sink : public OutputStream {
 public:
    Result<int32_t> Write(const char* b, uint32_t n) override {
        if (mode == 1) return Status::IOError("device");
        if (mode == 2 && n > 0) n--;  // short
        data.append(b, n);
        return static_cast<int32_t>(n);
    }
    Status Flush() override { return Status::OK(); }
    Result<int64_t> GetPos() const override { return static_cast<int64_t>(data.size()); }
    Result<std::string> GetUri() const override { return std::string("sink"); }
    Status Close() override { return Status::OK(); }
    std::string data;
    int mode = 0;
};

static bool g_long = false;

static void Gen(vt::Trace& t) {
    auto& r = t.rng;
    std::shared_ptr<MemoryPool> pool = GetMemoryPool();
    bool seg = r.Chance(65);
    int seg_size = r.Pick(std::vector<int>{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 64, 1000});
    t.Init(J().k("seg", seg).k("size", seg_size));
    auto sink = std::make_shared<Sink>();
    MemorySegmentOutputStream ms(seg_size, pool);
    DataOutputStream ds(sink);
    struct W {
        char kind;
        bool little;
        std::string text;
    };
    std::vector<W> log;
    bool little = false;
    bool damaged = false;
    auto value = [&](auto v, auto read) {
        using T = decltype(v);
        t.Op("value", J().k("v", Be(v)).k("mode", sink->mode), [&] {
            if constexpr (std::is_same_v<T, float> || std::is_same_v<T, double> || std::is_same_v<T, int8_t> || std::is_same_v<T, uint8_t>) {
                ms.WriteValue<T>(v);
            } else if (seg) {
                ms.WriteValue<T>(v);
            } else {
                return Out::Of(ds.WriteValue<T>(v));
            }
            return Out();
        });
        if (t.last_ok) log.push_back({read, little, ""});
        else damaged = true;
    };
    auto word = [&]() -> uint64_t {
        switch (r.Below(4)) {
            case 0: return r.Next();
            case 1: return r.Below(300);
            case 2: return uint64_t(-1) - r.Below(3);
            default: return uint64_t(1) << r.Below(64);
        }
    };
    auto text = [&](int n) {
        std::string s;
        for (int i = 0; i < n; i++) s += static_cast<char>(r.Below(256));
        return s;
    };
    int steps = r.In(3, 18);
    auto total = [&]() -> int64_t { return seg ? ms.CurrentSize() : sink->data.size(); };
    for (int k = 0; k < steps && !damaged; k++) {
        if (!seg) sink->mode = r.Chance(96) ? 0 : r.In(1, 2);
        switch (r.Below(12)) {
            case 0: value(static_cast<int16_t>(word()), 's'); break;
            case 1: value(static_cast<int32_t>(word()), 'i'); break;
            case 2: case 3: value(static_cast<int64_t>(word()), 'l'); break;
            case 4: value(static_cast<char>(word()), 'c'); break;
            case 5: value(r.Chance(50), 'b'); break;
            case 6: value(static_cast<uint16_t>(word()), 'u'); break;
            case 7:
                if (seg) {
                    uint32_t x = static_cast<uint32_t>(word());
                    float f;
                    memcpy(&f, &x, 4);
                    if (f == f) value(f, 'f');
                } else {
                    little = r.Chance(50);
                    t.Op("order", J().k("little", little), [&] { ds.SetOrder(little ? ByteOrder::PAIMON_LITTLE_ENDIAN : ByteOrder::PAIMON_BIG_ENDIAN); return Out(); });
                }
                break;
            case 8: {
                little = r.Chance(50);
                t.Op("order", J().k("little", little), [&] {
                    auto o = little ? ByteOrder::PAIMON_LITTLE_ENDIAN : ByteOrder::PAIMON_BIG_ENDIAN;
                    ms.SetOrder(o);
                    ds.SetOrder(o);
                    return Out();
                });
                break;
            }
            case 9: {
                std::string s = text(r.Below(r.Chance(10) ? 600 : 20));
                t.Op("string", J().k("v", BytesOf(s)).k("mode", sink->mode), [&] {
                    if (seg) ms.WriteString(s);
                    else return Out::Of(ds.WriteString(s));
                    return Out();
                });
                if (t.last_ok) log.push_back({'S', little, s});
                else damaged = true;
                break;
            }
            default: {
                std::string s = text(r.Below(r.Chance(10) ? 300 : 20));
                int how = seg ? r.Below(3) : 0;
                t.Op("bytes", J().k("v", BytesOf(s)).k("how", how).k("mode", sink->mode), [&] {
                    auto b = std::make_shared<Bytes>(s, pool.get());
                    if (!seg) return Out::Of(ds.WriteBytes(b));
                    if (how == 0) ms.WriteBytes(b);
                    if (how == 1) ms.Write(s.data(), s.size());
                    if (how == 2) {
                        std::string big = "ab" + s + "cde";
                        auto m = MemorySegment::Wrap(std::make_shared<Bytes>(big, pool.get()));
                        ms.Write(m, 2, s.size());
                    }
                    return Out();
                });
                if (t.last_ok) log.push_back({'B', little, s});
                else damaged = true;
            }
        }
        if (!damaged)
            t.Op("size", J(), [&] { return Out(J().k("n", total()).k("inseg", seg ? ms.CurrentPositionInSegment() : 0)); });
    }
    if (damaged) return;
    std::string all;
    t.Op("content", J(), [&] {
        if (seg) {
            auto b = MemorySegmentUtils::CopyToBytes(ms.Segments(), 0, ms.CurrentSize(), pool.get());
            all.assign(b->data(), b->size());
            std::string again;
            for (auto& s : ms.Segments()) {
                std::string x(s.Size(), '\0');
                s.Get(0, &x, 0, s.Size());
                again += x;
            }
            return Out(J().k("b", BytesOf(all)).k("again", again.substr(0, all.size()) == all));
        }
        all = sink->data;
        return Out(J().k("b", BytesOf(all)).k("again", true));
    });
    char* mem = new char[all.size() + 1];
    memcpy(mem, all.data(), all.size());
    DataInputStream in(std::make_shared<ByteArrayInputStream>(mem, all.size()));
    for (size_t k = 0; k < log.size(); k++) {
        t.Op("back", J().k("k", static_cast<int64_t>(k + 1)), [&]() -> Out {
            in.SetOrder(log[k].little ? ByteOrder::PAIMON_LITTLE_ENDIAN : ByteOrder::PAIMON_BIG_ENDIAN);
#define BACK(T) { auto x = in.ReadValue<T>(); if (!x.ok()) return Out::Err(); return J().k("v", Be<T>(x.value())); }
            switch (log[k].kind) {
                case 's': BACK(int16_t)
                case 'i': BACK(int32_t)
                case 'l': BACK(int64_t)
                case 'c': BACK(char)
                case 'b': BACK(bool)
                case 'u': BACK(uint16_t)
                case 'f': BACK(float)
                case 'S': {
                    auto x = in.ReadString();
                    if (!x.ok()) return Out::Err();
                    return J().k("v", BytesOf(x.value()));
                }
                default: {
                    Bytes b(log[k].text.size(), pool.get());
                    auto x = in.ReadBytes(&b);
                    if (!x.ok()) return Out::Err();
                    return J().k("v", BytesOf(b.data(), b.size()));
                }
            }
        });
    }
    // texts at the limits of the length field
    if (seg ? r.Chance(10) : r.Chance(20)) {
        int n = r.Pick(seg ? std::vector<int>{32767, 32768, 40000, 65535} : std::vector<int>{32767, 32768, 65535, 65536, 65537, 70000, 131072});
        if (seg && g_long) n = 65536 + r.Below(3);
        sink->mode = 0;
        sink->data.clear();
        t.Op("long", J().k("n", n), [&]() -> Out {
            std::string s(n, static_cast<char>('a' + n % 26)), got;
            if (seg) {
                MemorySegmentOutputStream o(4096, pool);
                o.WriteString(s);
                auto b = MemorySegmentUtils::CopyToBytes(o.Segments(), 0, o.CurrentSize(), pool.get());
                got.assign(b->data(), b->size());
            } else {
                ds.SetOrder(ByteOrder::PAIMON_BIG_ENDIAN);
                if (!ds.WriteString(s).ok()) {
                    Out o(J().k("size", sink->data.size()));
                    o.ok = false;
                    return o;
                }
                got = sink->data;
            }
            DataInputStream back(std::make_shared<ByteArrayInputStream>(got.data(), got.size()));
            auto x = back.ReadString();
            return J().k("size", got.size()).k("head", BytesOf(got.data(), 3)).k("same", x.ok() && x.value() == s);
        });
    }
    delete[] mem;
}

int main(int argc, char** argv) {
    g_long = strcmp(vt::Arg(argc, argv, "--long", "no"), "yes") == 0;
    return vt::Run(argc, argv, Gen, 20);
}
