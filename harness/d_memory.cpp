// C29: two blocks of memory, each cut into equal segments.
#include "paimon/common/data/binary_section.h"
#include "paimon/common/io/memory_segment_output_stream.h"
#include "paimon/common/memory/memory_segment.h"
#include "paimon/common/memory/memory_segment_utils.h"
#include "paimon/common/utils/murmurhash_utils.h"
#include "vtrace.h"

using namespace paimon;  // NOLINT
using vt::BytesOf;
using vt::J;
using vt::Out;
using Segs = std::vector<MemorySegment>;

template <typename T>
static std::vector<int> Be(T v) {
    uint64_t u = 0;
    memcpy(&u, &v, sizeof(T));
    std::vector<int> o;
    for (int i = sizeof(T) - 1; i >= 0; i--) o.push_back((u >> (8 * i)) & 0xff);
    return o;
}
static std::vector<int> Le32(int32_t v) {
    uint32_t u = static_cast<uint32_t>(v);
    return {int(u & 255), int((u >> 8) & 255), int((u >> 16) & 255), int(u >> 24)};
}

static void Gen(vt::Trace& t) {
    auto& r = t.rng;
    std::shared_ptr<MemoryPool> pool = GetMemoryPool();
    Segs seg[2];
    int size[2], total[2];
    bool same = r.Chance(60);  // similar contents, so that equality is common
    std::string init[2];
    for (int m = 0; m < 2; m++) {
        size[m] = r.Pick(std::vector<int>{1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 33});
        int count = r.Chance(25) ? 1 : r.In(1, std::max(2, 48 / size[m]));
        total[m] = size[m] * count;
        int alphabet = r.Pick(std::vector<int>{2, 3, 256});
        for (int k = 0; k < total[m]; k++) {
            if (m == 1 && same && k < total[0] && !r.Chance(5)) init[m] += init[0][k];
            else init[m] += static_cast<char>(alphabet == 256 ? r.Below(256) : 'a' + r.Below(alphabet));
        }
        for (int c = 0; c < count; c++)
            seg[m].push_back(MemorySegment::Wrap(std::make_shared<Bytes>(init[m].substr(c * size[m], size[m]), pool.get())));
    }
    t.Init(J().k("a", BytesOf(init[0])).k("b", BytesOf(init[1])));
    auto mem = [&](int m) {
        std::string s;
        for (auto& g : seg[m]) s.append(g.GetArray()->data(), g.GetArray()->size());
        return BytesOf(s);
    };
    auto text = [&](int n) {
        std::string s;
        for (int i = 0; i < n; i++) s += static_cast<char>(r.Below(256));
        return s;
    };
    int steps = r.In(10, 25);
    for (int step = 0; step < steps; step++) {
        int m = r.Below(2);
        int off = r.Below(total[m] + 1);
        int n = r.Below(total[m] - off + 1);
        J mj = J().k("m", m + 1).k("off", off);
        switch (r.Below(16)) {
            case 0: case 1: {
                int how = r.Below(7);
                t.Op("get", J(mj).k("n", n).k("how", how), [&] {
                    std::string q(n, '\0');
                    if (how == 0) {
                        auto b = MemorySegmentUtils::CopyToBytes(seg[m], off, n, pool.get());
                        q.assign(b->data(), b->size());
                    } else if (how == 1) {
                        std::string big(n + 5, 'x');
                        MemorySegmentUtils::CopyToBytes(seg[m], off, &big, 3, n);
                        q = big.substr(0, 3) == "xxx" && big.substr(n + 3) == "xx" ? big.substr(3, n) : "?touched?";
                    } else if (how == 2) {
                        std::unique_ptr<char[]> b(new char[n + 1]);
                        MemorySegmentUtils::CopyToUnsafe(seg[m], off, b.get(), n);
                        q.assign(b.get(), n);
                    } else if (how == 3) {
                        auto b = MemorySegmentUtils::GetBytes(seg[m], off, n, pool.get());
                        q.assign(b->data(), b->size());
                    } else if (how == 4) {
                        for (int k = 0; k < n; k++) q[k] = MemorySegmentUtils::GetValue<char>(seg[m], off + k);
                    } else if (how == 5) {
                        Bytes b(n, pool.get());
                        MemorySegmentUtils::CopyMultiSegmentsToBytes(seg[m], off, &b, 0, n);
                        q.assign(b.data(), n);
                    } else {
                        BinarySection s(seg[m], off, n);
                        auto b = s.ToBytes(pool.get());
                        q.assign(b->data(), b->size());
                    }
                    return Out(J().k("q", BytesOf(q)));
                });
                break;
            }
            case 2: {
                std::string q = text(n);
                t.Op("put", J(mj).k("q", BytesOf(q)), [&] {
                    int front = r.Below(3);
                    Bytes src(std::string(front, 'z') + q + "zz", pool.get());
                    MemorySegmentUtils::CopyFromBytes(&seg[m], off, src, front, n);
                    return Out(J().k("mem", mem(m)));
                });
                break;
            }
            case 3: case 4: case 5: {
                static const int width[] = {1, 2, 4, 8, 4, 8};
                int w = r.Below(6);
                if (width[w] > total[m]) break;
                off = r.Below(total[m] - width[w] + 1);
                mj = J().k("m", m + 1).k("off", off);
                if (r.Chance(50)) {
                    t.Op("getv", J(mj).k("w", width[w]), [&] {
                        std::vector<int> v;
                        switch (w) {
                            case 0: v = Be(MemorySegmentUtils::GetValue<char>(seg[m], off)); break;
                            case 1: v = Be(MemorySegmentUtils::GetValue<int16_t>(seg[m], off)); break;
                            case 2: v = Be(MemorySegmentUtils::GetValue<int32_t>(seg[m], off)); break;
                            case 3: v = Be(MemorySegmentUtils::GetValue<int64_t>(seg[m], off)); break;
                            case 4: v = Be(MemorySegmentUtils::GetValue<float>(seg[m], off)); break;
                            default: v = Be(MemorySegmentUtils::GetValue<double>(seg[m], off)); break;
                        }
                        return Out(J().k("v", v));
                    });
                } else {
                    uint64_t x = r.Chance(50) ? r.Next() : r.Chance(50) ? ~0ull : 0x80ull << (8 * r.Below(8));
                    float f;
                    double d;
                    uint32_t x32 = static_cast<uint32_t>(x);
                    memcpy(&f, &x32, 4);
                    memcpy(&d, &x, 8);
                    std::vector<int> v;
                    switch (w) {
                        case 0: v = Be(static_cast<char>(x)); break;
                        case 1: v = Be(static_cast<int16_t>(x)); break;
                        case 2: v = Be(static_cast<int32_t>(x)); break;
                        case 3: v = Be(static_cast<int64_t>(x)); break;
                        case 4: v = Be(f); break;
                        default: v = Be(d); break;
                    }
                    t.Op("setv", J(mj).k("v", v), [&] {
                        switch (w) {
                            case 0: MemorySegmentUtils::SetValue<char>(&seg[m], off, static_cast<char>(x)); break;
                            case 1: MemorySegmentUtils::SetValue<int16_t>(&seg[m], off, static_cast<int16_t>(x)); break;
                            case 2: MemorySegmentUtils::SetValue<int32_t>(&seg[m], off, static_cast<int32_t>(x)); break;
                            case 3: MemorySegmentUtils::SetValue<int64_t>(&seg[m], off, static_cast<int64_t>(x)); break;
                            case 4: MemorySegmentUtils::SetValue<float>(&seg[m], off, f); break;
                            default: MemorySegmentUtils::SetValue<double>(&seg[m], off, d); break;
                        }
                        return Out(J().k("mem", mem(m)));
                    });
                }
                break;
            }
            case 6: {  // booleans
                if (off >= total[m]) break;
                if (r.Chance(50)) {
                    t.Op("getbool", mj, [&] { return Out(J().k("v", MemorySegmentUtils::GetValue<bool>(seg[m], off))); });
                } else {
                    bool v = r.Chance(50);
                    t.Op("setv", J(mj).k("v", std::vector<int>{v ? 1 : 0}), [&] {
                        MemorySegmentUtils::SetValue<bool>(&seg[m], off, v);
                        return Out(J().k("mem", mem(m)));
                    });
                }
                break;
            }
            case 7: case 8: {  // bits
                if (off >= total[m]) break;
                int k = r.Below(8 * (total[m] - off));
                bool one = seg[m].size() == 1 && r.Chance(50);
                if (r.Chance(40)) {
                    t.Op("bitget", J(mj).k("k", k), [&] {
                        return Out(J().k("v", one ? MemorySegmentUtils::BitGet(seg[m][0], off, k) : MemorySegmentUtils::BitGet(seg[m], off, k)));
                    });
                } else {
                    bool on = r.Chance(50);
                    t.Op("bitset", J(mj).k("k", k).k("on", on), [&] {
                        if (on) one ? MemorySegmentUtils::BitSet(&seg[m][0], off, k) : MemorySegmentUtils::BitSet(&seg[m], off, k);
                        else one ? MemorySegmentUtils::BitUnSet(&seg[m][0], off, k) : MemorySegmentUtils::BitUnSet(&seg[m], off, k);
                        return Out(J().k("mem", mem(m)));
                    });
                }
                break;
            }
            case 9: case 10: {
                int o1 = r.Below(total[0] + 1), o2 = r.Chance(50) ? std::min(o1, total[1]) : r.Below(total[1] + 1);
                int lim = std::min(total[0] - o1, total[1] - o2);
                int len = r.Chance(50) ? lim : r.Below(lim + 1);
                t.Op("equals", J().k("o1", o1).k("o2", o2).k("n", len), [&] {
                    return Out(J().k("v", MemorySegmentUtils::Equals(seg[0], o1, seg[1], o2, len)));
                });
                break;
            }
            case 11: {
                int o1 = r.Below(total[0] + 1), n1 = r.Below(total[0] - o1 + 1);
                int o2 = r.Chance(50) ? std::min(o1, total[1]) : r.Below(total[1] + 1);
                int n2 = r.Chance(60) ? std::min(n1, total[1] - o2) : r.Below(total[1] - o2 + 1);
                t.Op("section", J().k("o1", o1).k("n", n1).k("o2", o2).k("n2", n2), [&] {
                    BinarySection a(seg[0], o1, n1), b;
                    if (seg[1].size() == 1 && r.Chance(50)) b.PointTo(seg[1][0], o2, n2);
                    else b.PointTo(seg[1], o2, n2);
                    auto q = a.ToBytes(pool.get());
                    return Out(J().k("v", a == b).k("bytes", BytesOf(q->data(), q->size())).k("h", Le32(a.HashCode())));
                });
                break;
            }
            case 12: {
                int o1 = r.Below(total[0] + 1), n1 = r.Below(total[0] - o1 + 1);
                int o2 = r.Below(total[1] + 1);
                int n2 = std::min<int>(r.Below(5), total[1] - o2);
                t.Op("find", J().k("o1", o1).k("n", n1).k("o2", o2).k("n2", n2), [&] {
                    return Out(J().k("v", MemorySegmentUtils::Find(seg[0], o1, n1, seg[1], o2, n2)));
                });
                break;
            }
            case 13: {
                int how = r.Below(5);
                if (how == 1 || how == 4) n -= n % 4;
                t.Op("hash", J(mj).k("n", n).k("how", how), [&] {
                    int32_t h;
                    if (how == 0) h = MemorySegmentUtils::Hash(seg[m], off, n, pool.get());
                    else if (how == 1) h = MemorySegmentUtils::HashByWords(seg[m], off, n, pool.get());
                    else {
                        std::shared_ptr<Bytes> b = MemorySegmentUtils::CopyToBytes(seg[m], off, n, pool.get());
                        if (how == 2) h = MurmurHashUtils::HashBytes(b);
                        else if (how == 3) h = MurmurHashUtils::HashBytes(MemorySegment::Wrap(b), 0, n);
                        else h = MurmurHashUtils::HashUnsafeBytesByWords(b->data(), 0, n);
                    }
                    return Out(J().k("h", Le32(h)));
                });
                break;
            }
            case 14: {  // one segment each
                if (seg[0].size() != 1 || seg[1].size() != 1) {
                    auto a = text(r.Below(20)), b = r.Chance(60) ? a + text(r.Below(3)) : text(r.Below(20));
                    if (!b.empty() && r.Chance(40)) b[r.Below(b.size())] ^= 0x80;
                    int more = r.Below(3);
                    t.Op("bytes", J().k("p", BytesOf(a)).k("q", BytesOf(b)).k("more", more), [&] {
                        Bytes x(a, pool.get()), y(b, pool.get());
                        int c = x.compare(y);
                        auto cp = Bytes::CopyOf(x, a.size() + more, pool.get());
                        bool eq = x == y, lt = x < y;
                        Bytes z(std::move(x)), w(3, pool.get());
                        w = std::move(z);
                        return Out(J().k("c", c < 0 ? -1 : c > 0 ? 1 : 0).k("eq", eq).k("lt", lt)
                                       .k("cp", BytesOf(cp->data(), cp->size())).k("moved", BytesOf(w.data(), w.size()))
                                       .k("left", static_cast<int64_t>(x.size() + z.size())));
                    });
                    break;
                }
                int o1 = r.Below(total[0] + 1), o2 = r.Chance(50) ? std::min(o1, total[1]) : r.Below(total[1] + 1);
                int lim = std::min(total[0] - o1, total[1] - o2);
                int len = r.Chance(60) ? lim : r.Below(lim + 1);
                int what = r.Below(4);
                if (what <= 1) {
                    int n2 = what == 0 ? len : r.Below(total[1] - o2 + 1);
                    t.Op("cmp", J().k("o1", o1).k("o2", o2).k("n", len).k("n2", n2), [&] {
                        int c = what == 0 ? seg[0][0].Compare(seg[1][0], o1, o2, len) : seg[0][0].Compare(seg[1][0], o1, o2, len, n2);
                        return Out(J().k("v", c < 0 ? -1 : c > 0 ? 1 : 0));
                    });
                } else if (what == 2) {
                    t.Op("copy", J().k("o1", o1).k("o2", o2).k("n", len), [&] {
                        seg[0][0].CopyTo(o1, &seg[1][0], o2, len);
                        return Out(J().k("mem", mem(1)));
                    });
                } else {
                    t.Op("swap", J().k("o1", o1).k("o2", o2).k("n", len), [&] {
                        Bytes tmp(len + r.Below(3), pool.get());
                        seg[0][0].SwapBytes(&tmp, &seg[1][0], o1, o2, len);
                        return Out(J().k("mem", mem(0)).k("mem2", mem(1)));
                    });
                }
                break;
            }
            default: {
                if (r.Chance(50)) {
                    int nn = r.Chance(85) ? n : n + r.Below(4);
                    int ts = r.Pick(std::vector<int>{1, 3, 8, 64});
                    t.Op("stream", J(mj).k("n", nn), [&]() -> Out {
                        MemorySegmentOutputStream o(ts, pool);
                        o.WriteValue<char>('!');
                        auto st = MemorySegmentUtils::CopyToStream(seg[m], off, nn, &o);
                        if (!st.ok()) return Out::Err();
                        auto b = MemorySegmentUtils::CopyToBytes(o.Segments(), 1, o.CurrentSize() - 1, pool.get());
                        return J().k("q", BytesOf(b->data(), b->size()));
                    });
                } else {  // variable-length field: inline (up to 7 bytes) or offset and length
                    bool in = r.Chance(50);
                    int base = r.Below(off + 1);
                    int len = in ? std::min<int>(n, r.Below(8)) : n;
                    uint64_t word = in ? (0x80ull << 56) | (uint64_t(len) << 56) | (r.Next() >> 8)
                                       : (uint64_t(off - base) << 32) | uint32_t(len);
                    t.Op("binary", J().k("m", m + 1).k("at", off).k("n", len).k("inl", in), [&] {
                        auto b = BinarySection::ReadBinary(seg[m], base, in ? off : 0, static_cast<int64_t>(word), pool.get());
                        return Out(J().k("q", BytesOf(b->data(), b->size())));
                    });
                }
            }
        }
    }
}

int main(int argc, char** argv) { return vt::Run(argc, argv, Gen, 20); }
