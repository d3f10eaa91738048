// C27: stacks of input streams.  A position v = k * 2^32 + rest is reported as k * 1000000 + rest,
// values beyond every stream as +-2000000000.  The byte at reported position e is
// (31 e + e div 97) mod 251.
#include "paimon/common/io/offset_input_stream.h"
#include "paimon/io/buffered_input_stream.h"
#include "paimon/io/byte_array_input_stream.h"
#include "paimon/io/data_input_stream.h"
#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"
#include "vtrace.h"

using namespace paimon;  // NOLINT
using vt::J;
using vt::Out;

static const int64_t kFar = 2000000000;
static int64_t Enc(int64_t v) {
    if (v > (1ll << 62)) return kFar;
    if (v < -(1ll << 62)) return -kFar;
    int64_t k = (v + (1ll << 31)) >> 32;
    int64_t rest = v - (k << 32);
    if (rest > 400000 || rest < -400000 || k > 1000 || k < -1000) return -999999999;
    return k * 1000000 + rest;
}
static int64_t EncU(uint64_t v) { return v > (1ull << 62) ? kFar : Enc(static_cast<int64_t>(v)); }
static char At(int64_t v) {
    int64_t e = Enc(v);
    return static_cast<char>((31 * e + e / 97) % 251);
}

// behaves as a file: reads past the end are short; of any length
class FileLike : public InputStream {
 public:
    explicit FileLike(int64_t n) : n_(n) {}
    Status Seek(int64_t off, SeekOrigin o) override {
        int64_t p = o == FS_SEEK_SET ? 0 : o == FS_SEEK_CUR ? pos_ : n_;
        if (off < -p || off > n_ - p) return Status::Invalid("seek");
        pos_ = p + off;
        return Status::OK();
    }
    Result<int64_t> GetPos() const override { return pos_; }
    Result<int32_t> Read(char* b, uint32_t size) override {
        int64_t m = std::min<int64_t>(size, n_ - pos_);
        if (fail_) return Status::IOError("device");
        for (int64_t i = 0; i < m; i++) b[i] = At(pos_ + i);
        pos_ += m;
        return static_cast<int32_t>(m);
    }
    Result<int32_t> Read(char* b, uint32_t size, uint64_t off) override {
        if (off > static_cast<uint64_t>(n_)) return Status::Invalid("offset");
        int64_t m = std::min<int64_t>(size, n_ - off);
        for (int64_t i = 0; i < m; i++) b[i] = At(off + i);
        return static_cast<int32_t>(m);
    }
    void ReadAsync(char* b, uint32_t size, uint64_t off, std::function<void(Status)>&& cb) override {
        auto r = Read(b, size, off);
        cb(!r.ok() ? r.status() : r.value() == static_cast<int32_t>(size) ? Status::OK() : Status::IOError("short"));
    }
    Result<uint64_t> Length() const override { return n_; }
    Status Close() override { return Status::OK(); }
    Result<std::string> GetUri() const override { return std::string("file-like"); }
    int64_t n_, pos_ = 0;
    bool fail_ = false;
};

template <typename T>
static std::vector<int> BeBytes(T v) {
    uint64_t u = 0;
    memcpy(&u, &v, sizeof(T));
    std::vector<int> o;
    for (int i = sizeof(T) - 1; i >= 0; i--) o.push_back((u >> (8 * i)) & 0xff);
    return o;
}

static void Gen(vt::Trace& t) {
    auto& r = t.rng;
    auto pool = GetMemoryPool();
    int64_t n;
    std::shared_ptr<InputStream> s;
    std::shared_ptr<FileLike> fl;
    std::unique_ptr<char[]> mem;
    bool big = r.Chance(30);
    const char* kind = "plain";
    bool soft = false;  // reads past the end are short instead of refused
    if (!big && r.Chance(60)) {
        n = r.Chance(10) ? 0 : r.In(1, r.Chance(15) ? 20000 : 70);
        mem.reset(new char[std::max<int64_t>(n, 1)]);
        for (int64_t i = 0; i < n; i++) mem[i] = At(i);
        s = std::make_shared<ByteArrayInputStream>(mem.get(), n);
    } else {
        n = big ? (r.In(1, 5) << 32) + r.In(-50, 50) : r.In(0, 70);
        fl = std::make_shared<FileLike>(n);
        s = fl;
        kind = "file";
        soft = true;
    }
    int64_t base = 0, len = n;
    t.Init(J().k("n", Enc(n)).k("kind", kind).k("soft", soft));
    // a length or offset inside a sequence of m bytes
    auto point = [&](int64_t m) -> int64_t {
        int64_t p;
        if (m > (1ll << 31)) {
            p = (r.Below((m >> 32) + 2) << 32) + r.In(-20, 20);
        } else {
            p = r.Chance(80) ? r.Below(m + 1) : m + r.In(-2, 3);
        }
        return p;
    };
    int layers = kind[0] == 'f' ? r.In(1, 2) : r.In(0, 2);
    bool window = false, buffered = false;
    for (int l = 0; l < layers; l++) {
        if (l == layers - 1 && r.Chance(50)) {
            int bs = r.Pick(std::vector<int>{1, 2, 3, 5, 8, 16, 64, 8192});
            t.Op("buffer", J().k("size", bs), [&] {
                s = std::make_shared<BufferedInputStream>(s, bs, pool.get());
                return Out(J().k("len", EncU(s->Length().value())).k("pos", Enc(s->GetPos().value())));
            });
            buffered = true;
        } else {
            bool done = false;
            for (int tries = 0; tries < 4 && !done; tries++) {
                int64_t off = r.Chance(5) ? -r.In(1, 3) : point(len);
                int64_t ln = r.Chance(25) ? -1 : r.Chance(5) ? -r.In(2, 5) : r.Chance(3) ? INT64_MAX : point(std::max<int64_t>(len - off, 0));
                t.Op("window", J().k("off", Enc(off)).k("len", Enc(ln)), [&]() -> Out {
                    auto res = OffsetInputStream::Create(s, ln, off);
                    if (!res.ok()) return Out::Err();
                    s = std::move(res).value();
                    done = true;
                    return J().k("wlen", EncU(s->Length().value())).k("pos", Enc(s->GetPos().value()));
                });
            }
            if (!done) continue;
            window = true;
            base = 0;
            len = s->Length().value();
        }
    }
    DataInputStream data(s);
    bool little = false;
    auto pos = [&](J j) {
        auto p = s->GetPos();
        return j.k("pos", p.ok() ? Enc(p.value()) : -999999999);
    };
    auto fin = [&](bool ok, J j) {
        Out o(pos(j));
        o.ok = ok;
        return o;
    };
    auto size = [&]() -> uint32_t {
        return r.Chance(90) ? r.Below(r.Chance(30) ? 30 : 7) : r.Chance(20) ? 9000 : r.Below(100);
    };
    int steps = r.In(8, 30);
    for (int k = 0; k < steps; k++) {
        int64_t cur = s->GetPos().ok() ? s->GetPos().value() : 0;
        switch (r.Below(13)) {
            case 0: case 1: case 2: {
                SeekOrigin o = r.Pick(std::vector<SeekOrigin>{FS_SEEK_SET, FS_SEEK_CUR, FS_SEEK_END});
                int64_t b = o == FS_SEEK_SET ? 0 : o == FS_SEEK_CUR ? cur : len;
                int64_t off = r.Chance(80) ? point(len) - b : r.Chance(20) ? (r.Chance(50) ? INT64_MAX - r.Below(3) : INT64_MIN + r.Below(3)) : r.In(-100, 100);
                t.Op("seek", J().k("off", Enc(off)).k("from", o == FS_SEEK_SET ? "set" : o == FS_SEEK_CUR ? "cur" : "end"),
                     [&] { return fin(s->Seek(off, o).ok(), J()); });
                break;
            }
            case 3: case 4: case 5: case 6: {
                uint32_t m = size();
                t.Op("read", J().k("size", m), [&] {
                    std::unique_ptr<char[]> b(new char[m ? m : 1]);
                    auto res = s->Read(b.get(), m);
                    if (!res.ok()) return fin(false, J());
                    return fin(true, J().k("n", res.value()).k("b", vt::BytesOf(b.get(), std::min<int>(res.value(), 64))));
                });
                break;
            }
            case 7: case 8: {
                uint32_t m = size();
                uint64_t off = r.Chance(92) ? point(len) : UINT64_MAX - r.Below(9);
                bool async = r.Chance(50);
                t.Op("pread", J().k("size", m).k("off", EncU(off)).k("async", async), [&] {
                    std::unique_ptr<char[]> b(new char[m ? m : 1]);
                    int64_t got = m;
                    bool ok;
                    int calls = 1;
                    if (async) {
                        calls = 0;
                        s->ReadAsync(b.get(), m, off, [&](Status st) { calls++; ok = st.ok(); });
                    } else {
                        auto res = s->Read(b.get(), m, off);
                        ok = res.ok();
                        if (ok) got = res.value();
                    }
                    J j;
                    j.k("calls", calls);
                    if (ok) j.k("n", got).k("b", vt::BytesOf(b.get(), std::min<int>(got, 64)));
                    return fin(ok, j);
                });
                break;
            }
            case 9: {
                little = r.Chance(50);
                t.Op("order", J().k("little", little), [&] {
                    data.SetOrder(little ? ByteOrder::PAIMON_LITTLE_ENDIAN : ByteOrder::PAIMON_BIG_ENDIAN);
                    return Out();
                });
                break;
            }
            case 10: case 11: {
                int w = r.Below(8);
                static const int width[] = {1, 1, 2, 2, 4, 8, 4, 1};
                if (w == 7) {  // bool: only where the byte is 0 or 1
                    std::unique_ptr<char[]> b(new char[1]);
                    int64_t e = Enc(cur);
                    (void)e;
                    w = 0;
                }
                t.Op("value", J().k("w", width[w]), [&] {
                    std::vector<int> v;
                    bool ok = true;
#define RD(T) { auto res = data.ReadValue<T>(); ok = res.ok(); if (ok) v = BeBytes<T>(res.value()); }
                    switch (w) {
                        case 0: RD(char) break;
                        case 1: RD(int8_t) break;
                        case 2: RD(int16_t) break;
                        case 3: RD(uint16_t) break;
                        case 4: RD(int32_t) break;
                        case 5: RD(int64_t) break;
                        case 6: RD(float) break;
                    }
                    return fin(ok, ok ? J().k("v", v) : J());
                });
                break;
            }
            default: {
                int what = r.Below(4);
                if (what == 0) {
                    t.Op("string", J(), [&] {
                        auto res = data.ReadString();
                        if (!res.ok()) return fin(false, J());
                        return fin(true, J().k("n", res.value().size()).k("b", vt::BytesOf(res.value().data(), std::min<size_t>(res.value().size(), 64))));
                    });
                } else if (what == 1) {
                    uint32_t m = size();
                    t.Op("bytes", J().k("size", m), [&] {
                        Bytes b(m, pool.get());
                        auto st = data.ReadBytes(&b);
                        if (!st.ok()) return fin(false, J());
                        return fin(true, J().k("n", m).k("b", vt::BytesOf(b.data(), std::min<int>(m, 64))));
                    });
                } else if (what == 2) {
                    uint32_t m = size();
                    t.Op("bytes", J().k("size", m), [&] {
                        std::unique_ptr<char[]> b(new char[m ? m : 1]);
                        auto st = data.Read(b.get(), m);
                        if (!st.ok()) return fin(false, J());
                        return fin(true, J().k("n", m).k("b", vt::BytesOf(b.get(), std::min<int>(m, 64))));
                    });
                } else {
                    int64_t off = point(len);
                    t.Op("seek", J().k("off", Enc(off)).k("from", "set"), [&] { return fin(data.Seek(off).ok(), J()); });
                }
                break;
            }
        }
        if (k % 5 == 4) {
            t.Op("ask", J(), [&] {
                return fin(true, J().k("len", EncU(s->Length().value())).k("len2", EncU(data.Length().value())).k("pos2", Enc(data.GetPos().value())).k("uri", s->GetUri().ok()));
            });
        }
        if (auto* ba = dynamic_cast<ByteArrayInputStream*>(s.get())) {
            if (r.Chance(10))
                t.Op("raw", J(), [&] {
                    int64_t p = ba->GetPos().value();
                    return fin(true, J().k("b", p >= 0 && p < len ? int(static_cast<unsigned char>(*ba->GetRawData())) : -1));
                });
        }
    }
}

int main(int argc, char** argv) { return vt::Run(argc, argv, Gen, 20); }
