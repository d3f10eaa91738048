// C30: two strings, each kept in some layout over segments.
#include "paimon/common/data/binary_string.h"
#include "vtrace.h"

using namespace paimon;  // NOLINT
using vt::BytesOf;
using vt::J;
using vt::Out;

static std::vector<int> Le32(int32_t v) {
    uint32_t u = static_cast<uint32_t>(v);
    return {int(u & 255), int((u >> 8) & 255), int((u >> 16) & 255), int(u >> 24)};
}
static int Sg(int c) { return c < 0 ? -1 : c > 0 ? 1 : 0; }

static std::string Text(vt::Rng& r, int maxc) {
    static const std::vector<std::string> chars = {"a", "b", "A", "Z", "z", "@", "[", "`", "{", " ", std::string(1, '\0'), "\x7f",
                                                   "\xc3\xa9", "\xc3\xa0", "\xe2\x82\xac", "\xe4\xb8\xad", "\xf0\x9f\x98\x80",
                                                   "\xff", "\x80", "\xc0", "\xc1", "\xc2", "\xe2", "\xf0", "\xf8", "\xfe", "\xbf"};
    std::string s;
    int n = r.Below(maxc + 1);
    int lim = r.Pick(std::vector<int>{2, 5, 12, 17, int(chars.size())});
    for (int i = 0; i < n; i++) s += chars[r.Below(lim)];
    return s;
}

static BinaryString Place(vt::Rng& r, const std::string& s, MemoryPool* pool) {
    switch (r.Below(8)) {
        case 0: return BinaryString::FromString(s, pool);
        case 1: {
            std::shared_ptr<Bytes> b = std::make_shared<Bytes>("xy" + s + "\xc3\xa9", pool);
            return BinaryString::FromBytes(b, 2, s.size());
        }
        default: break;
    }
    int size = r.Pick(std::vector<int>{1, 2, 3, 4, 5, 7, 8, 16, 64});
    std::string all;
    int front = r.Below(2 * size + 2), back = r.Below(size + 3);
    for (int i = 0; i < front; i++) all += static_cast<char>(r.Below(256));
    all += s;
    for (int i = 0; i < back; i++) all += static_cast<char>(r.Chance(50) ? 0xa9 : r.Below(256));
    while (all.size() % size) all += 'q';
    if (all.empty()) all.assign(size, 'e');
    std::vector<MemorySegment> segs;
    for (size_t p = 0; p < all.size(); p += size)
        segs.push_back(MemorySegment::Wrap(std::make_shared<Bytes>(all.substr(p, size), pool)));
    return BinaryString::FromAddress(segs, front, s.size());
}

static void Gen(vt::Trace& t) {
    auto& r = t.rng;
    std::shared_ptr<MemoryPool> pool = GetMemoryPool();
    std::string s[2];
    s[0] = Text(r, r.Chance(30) ? 3 : 12);
    switch (r.Below(5)) {
        case 0: s[1] = Text(r, 12); break;
        case 1: s[1] = s[0]; break;
        case 2: {
            int b = r.Below(s[0].size() + 1);
            s[1] = s[0].substr(b, r.Below(s[0].size() - b + 1));
            break;
        }
        case 3: s[1] = r.Chance(50) ? s[0] + Text(r, 2) : s[0].substr(0, r.Below(s[0].size() + 1)); break;
        default: {
            s[1] = s[0];
            if (!s[1].empty()) s[1][r.Below(s[1].size())] ^= r.Pick(std::vector<int>{0x80, 1, 0x20});
        }
    }
    t.Init(J().k("a", BytesOf(s[0])).k("b", BytesOf(s[1])));
    int steps = r.In(8, 20);
    for (int step = 0; step < steps; step++) {
        int xi = r.Below(2), yi = r.Chance(80) ? 1 - xi : xi;
        BinaryString x = Place(r, s[xi], pool.get()), y = Place(r, s[yi], pool.get());
        J b = J().k("x", xi + 1).k("y", yi + 1);
        int n = s[xi].size();
        auto text = [&](const BinaryString& v) { return BytesOf(v.ToString()); };
        switch (r.Below(11)) {
            case 0: case 1:
                t.Op("text", b, [&] {
                    auto by = x.ToBytes(pool.get());
                    return Out(J().k("q", text(x)).k("copy", text(x.Copy(pool.get()))).k("bytes", BytesOf(by->data(), by->size()))
                                   .k("h", Le32(x.HashCode())).k("n", x.GetSizeInBytes()).k("chars", x.NumChars()));
                });
                break;
            case 2: case 3:
                t.Op("cmp", b, [&] {
                    return Out(J().k("c", Sg(x.CompareTo(y))).k("cm", Sg(x.CompareMultiSegments(y))).k("eq", x == y).k("lt", x < y));
                });
                break;
            case 4: case 5: {
                int from = r.Below(n + 2), to = r.Below(n + 3);
                if (r.Chance(5)) from = -1;
                t.Op("sub", J(b).k("b", from).k("e", to), [&] { return Out(J().k("q", text(x.Substring(from, to, pool.get())))); });
                break;
            }
            case 6: case 7: {
                std::string sub = s[yi];
                int from = r.Chance(50) ? 0 : int(r.Below(n + 3)) - 1;
                t.Op("index", J(b).k("from", from), [&] { return Out(J().k("v", x.IndexOf(y, from))); });
                break;
            }
            case 8:
                if (r.Chance(50)) {
                    t.Op("tests", b, [&] {
                        return Out(J().k("contains", x.Contains(y)).k("starts", x.StartsWith(y)).k("ends", x.EndsWith(y)));
                    });
                } else {
                    int p = int(r.Below(n + 3)) - 1;
                    t.Op("match", J(b).k("p", p), [&] { return Out(J().k("v", x.MatchAt(y, p))); });
                }
                break;
            case 9:
                t.Op("case", b, [&] {
                    return Out(J().k("up", text(x.ToUpperCase(pool.get()))).k("low", text(x.ToLowerCase(pool.get()))));
                });
                break;
            default:
                if (r.Chance(10)) {
                    int m = r.Below(10);
                    t.Op("blank", J(b).k("n", m), [&] { return Out(J().k("q", text(BinaryString::BlankString(m, pool.get())))); });
                } else if (n == 0) {
                    break;
                } else if (r.Chance(50)) {
                    int k = r.Below(n);
                    t.Op("at", J(b).k("k", k), [&] { return Out(J().k("v", int(static_cast<uint8_t>(x.ByteAt(k))))); });
                } else {
                    int from = r.Below(n), m = r.Below(n - from) + 1;
                    t.Op("cut", J(b).k("b", from).k("n", m), [&] {
                        return Out(J().k("q", text(x.InFirstSegment() && r.Chance(50) ? x.CopyBinaryStringInOneSeg(from, m, pool.get())
                                                                                     : x.CopyBinaryString(from, from + m - 1, pool.get()))));
                    });
                }
        }
    }
}

int main(int argc, char** argv) { return vt::Run(argc, argv, Gen, 20); }
