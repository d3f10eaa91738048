// C20: sequences of bitmap operations over four slots, values abstracted to atoms.
//
// The value space used by one trace is a list of clusters; a cluster is a run of adjacent
// half-open intervals ("atoms").  All operations act on whole atoms, hence a bitmap is a set of
// atom numbers for the specification.  Values read back are reported as [atom, offset].
#include <memory>

#include "paimon/io/byte_array_input_stream.h"
#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"
#include "paimon/utils/roaring_bitmap32.h"
#include "paimon/utils/roaring_bitmap64.h"
#include "vtrace.h"

using paimon::RoaringBitmap32;
using paimon::RoaringBitmap64;
using vt::J;
using vt::Out;

struct Space {
    std::vector<__int128> lo, hi;  // atoms [lo, hi)
    std::vector<int> cluster;
    std::vector<int> size() const {
        std::vector<int> r;
        for (size_t i = 0; i < lo.size(); i++) r.push_back(hi[i] - lo[i]);
        return r;
    }
    // [atom, offset] (1-based atom), [0, 0] if outside every atom
    std::pair<int, int> Of(int64_t v) const {
        for (size_t i = 0; i < lo.size(); i++)
            if (v >= lo[i] && v < hi[i]) return {static_cast<int>(i) + 1, static_cast<int>(v - lo[i])};
        return {0, 0};
    }
};

template <typename V>
static Space MakeSpace(vt::Rng& r, bool is64) {
    std::vector<int64_t> anchors = {0, 60000, 65536 - 3, 131072 - 2, 1000000};
    std::vector<int64_t> tops = {INT32_MAX};
    if (is64) {
        anchors.insert(anchors.end(), {(1ll << 31) - 2, (1ll << 32) - 5, (1ll << 32) + 65530,
                                       (1ll << 33) - 3, (1ll << 40) + 17, (1ll << 62)});
        tops = {INT64_MAX};
    }
    std::set<int64_t> starts;
    int nc = r.In(1, 4);
    for (int i = 0; i < nc; i++) starts.insert(r.Pick(anchors));
    Space s;
    int cl = 0;
    int64_t prev_end = -1;
    for (int64_t st : starts) {
        int64_t at = st;
        if (at <= prev_end) continue;
        cl++;
        int na = r.In(2, 5);
        int64_t limit = INT64_MAX;
        for (int64_t o : starts)
            if (o > st && o < limit) limit = o;
        for (int i = 0; i < na; i++) {
            int64_t len = 1;
            switch (r.Below(7)) {
                case 0: case 1: len = 1; break;
                case 2: len = r.In(2, 6); break;
                case 3: len = r.In(7, 70); break;
                case 4: len = r.In(1000, 5000); break;
                case 5: len = 4096 + r.In(-1, 1); break;
                case 6: len = r.Chance(20) ? r.In(65530, 140000) : 3; break;
            }
            if (at + len >= limit) break;
            s.lo.push_back(at);
            s.hi.push_back(at + len);
            s.cluster.push_back(cl);
            at += len;
        }
        prev_end = at;
    }
    if (r.Chance(40)) {  // the end of the domain: values up to MAX-1 (ranges are half-open)
        cl++;
        int64_t mx = tops[0];
        int64_t a = mx - r.In(2, 90), b = mx - 1;
        s.lo.push_back(a); s.hi.push_back(b); s.cluster.push_back(cl);
        s.lo.push_back(b); s.hi.push_back(mx); s.cluster.push_back(cl);
        if (r.Chance(60)) {  // the maximum itself, out of reach of half-open ranges
            cl++;
            s.lo.push_back(mx); s.hi.push_back(static_cast<__int128>(mx) + 1); s.cluster.push_back(cl);
        }
    }
    return s;
}

template <typename B, typename V>
static void Sequence(vt::Trace& t, bool is64) {
    auto& r = t.rng;
    Space sp = MakeSpace<V>(r, is64);
    int n = sp.lo.size();
    auto pool = paimon::GetDefaultPool();
    const int kSlots = 4;
    std::vector<std::unique_ptr<B>> b;
    std::vector<bool> live(kSlots, true);
    for (int i = 0; i < kSlots; i++) b.push_back(std::make_unique<B>());
    t.Init(J().k("n", n).k("size", sp.size()).k("cluster", sp.cluster).k("slots", kSlots).k("wide", is64));

    auto list = [&](const B& x) {
        // groups of consecutive values inside one atom: [atom, first offset, last offset]
        std::vector<std::vector<int>> g;
        int64_t prev = 0;
        for (auto it = x.Begin(); it != x.End(); ++it) {
            int64_t v = *it;
            auto p = sp.Of(v);
            if (!g.empty() && p.first == g.back()[0] && p.first != 0 && v == prev + 1) {
                g.back()[2] = p.second;
            } else {
                if (g.size() > 200) break;
                g.push_back({p.first, p.second, p.second});
            }
            prev = v;
        }
        return g;
    };
    auto liveSlot = [&]() {
        std::vector<int> c;
        for (int i = 0; i < kSlots; i++)
            if (live[i]) c.push_back(i);
        return c.empty() ? -1 : r.Pick(c);
    };
    auto singles = [&]() {
        std::vector<int> c;
        for (int i = 0; i < n; i++)
            if (sp.hi[i] - sp.lo[i] == 1) c.push_back(i);
        return c;
    };
    auto one = singles();
    int nops = r.In(12, 45);
    for (int step = 0; step < nops; step++) {
        int s = liveSlot();
        if (s < 0) {
            b[0] = std::make_unique<B>();
            live[0] = true;
            t.Op("fresh", J().k("s", 0), [&] { return Out(); });
            continue;
        }
        int s2 = liveSlot();
        // a sub-range of one cluster
        int c = sp.cluster[r.Below(n)];
        int f = 0, l = n - 1;
        while (sp.cluster[f] != c) f++;
        while (sp.cluster[l] != c) l--;
        int i = r.In(f, l), j = r.In(f, l);
        if (i > j && r.Chance(90)) std::swap(i, j);
        // [i, j) or [i, j]: bounds as atom borders; empty and inverted ranges too
        bool incl = r.Chance(70) && sp.lo[j] != (is64 ? INT64_MAX : INT32_MAX);
        int64_t lo = sp.lo[i], hi = incl ? sp.hi[j] : sp.lo[j];
        std::vector<int> rng;
        for (int a = f; a <= l; a++)
            if (sp.lo[a] >= lo && sp.hi[a] <= hi) rng.push_back(a + 1);
        switch (r.Below(27)) {
            case 0: case 1:
                if (!one.empty()) {
                    int a = r.Pick(one);
                    t.Op("add", J().k("s", s).k("a", a + 1), [&] { b[s]->Add(sp.lo[a]); return Out(); });
                }
                break;
            case 2:
                if (!one.empty()) {
                    int a = r.Pick(one);
                    t.Op("cadd", J().k("s", s).k("a", a + 1), [&] { return Out(J().k("r", b[s]->CheckedAdd(sp.lo[a]))); });
                }
                break;
            case 3: case 4: case 5:
                t.Op("addr", J().k("s", s).k("as", rng), [&] { b[s]->AddRange(lo, hi); return Out(); });
                break;
            case 6:
                t.Op("remr", J().k("s", s).k("as", rng), [&] { b[s]->RemoveRange(lo, hi); return Out(); });
                break;
            case 7:
                t.Op("flip", J().k("s", s).k("as", rng), [&] { b[s]->Flip(lo, hi); return Out(); });
                break;
            case 8: {
                // ContainsAny with bounds possibly inside atoms
                t.Op("any", J().k("s", s).k("as", rng), [&] { return Out(J().k("r", b[s]->ContainsAny(lo, hi))); });
                break;
            }
            case 9: {
                int a = r.Below(n);
                int64_t x = sp.lo[a] + r.Below(sp.hi[a] - sp.lo[a]);
                t.Op("has", J().k("s", s).k("a", a + 1), [&] { return Out(J().k("r", b[s]->Contains(x))); });
                break;
            }
            case 10: case 11:
                t.Op("ior", J().k("s", s).k("s2", s2), [&] { *b[s] |= *b[s2]; return Out(); });
                break;
            case 12:
                t.Op("iand", J().k("s", s).k("s2", s2), [&] { *b[s] &= *b[s2]; return Out(); });
                break;
            case 13:
                t.Op("isub", J().k("s", s).k("s2", s2), [&] { *b[s] -= *b[s2]; return Out(); });
                break;
            case 14: {
                int d = r.Below(kSlots);
                int kind = r.Below(3);
                const char* nm[] = {"and", "or", "andnot"};
                t.Op(nm[kind], J().k("s", s).k("s2", s2).k("d", d), [&] {
                    B x = kind == 0 ? B::And(*b[s], *b[s2]) : kind == 1 ? B::Or(*b[s], *b[s2]) : B::AndNot(*b[s], *b[s2]);
                    *b[d] = std::move(x);
                    live[d] = true;
                    return Out();
                });
                break;
            }
            case 15: {
                int d = r.Below(kSlots);
                std::vector<int> ss;
                int m = r.In(0, 4);
                for (int q = 0; q < m; q++) ss.push_back(liveSlot());
                bool byval = r.Chance(40);
                t.Op("union", J().k("ss", ss).k("d", d), [&] {
                    B x;
                    if (byval) {
                        std::vector<B> in;
                        for (int q : ss) in.push_back(*b[q]);
                        x = B::FastUnion(in);
                    } else {
                        std::vector<const B*> in;
                        for (int q : ss) in.push_back(b[q].get());
                        x = B::FastUnion(in);
                    }
                    *b[d] = x;
                    live[d] = true;
                    return Out();
                });
                break;
            }
            case 16: {
                int d = r.Below(kSlots);
                int kind = r.Below(4);
                if (kind == 3 && d == s) kind = 0;
                const char* nm[] = {"copyassign", "copynew", "moveassign", "movenew"};
                t.Op(nm[kind], J().k("s", s).k("d", d), [&] {
                    if (kind == 0) { *b[d] = *b[s]; live[d] = true; }
                    if (kind == 1) { auto x = std::make_unique<B>(*b[s]); b[d] = std::move(x); live[d] = true; }
                    if (kind == 2) { *b[d] = std::move(*b[s]); live[d] = true; if (d != s) live[s] = false; }
                    if (kind == 3) { b[d] = std::make_unique<B>(std::move(*b[s])); live[d] = true; live[s] = false; }
                    return Out();
                });
                break;
            }
            case 17: {
                std::vector<V> vals;
                std::vector<int> as;
                if (!one.empty()) {
                    int m = r.In(0, 5);
                    for (int q = 0; q < m; q++) { int a = r.Pick(one); vals.push_back(sp.lo[a]); as.push_back(a + 1); }
                }
                t.Op("from", J().k("as", as).k("d", s), [&] { *b[s] = B::From(vals); return Out(); });
                break;
            }
            case 18:
                t.Op("eq", J().k("s", s).k("s2", s2), [&] {
                    return Out(J().k("r", *b[s] == *b[s2]).k("rev", *b[s2] == *b[s]));
                });
                break;
            case 19: case 20:
                t.Op("list", J().k("s", s), [&] {
                    return Out(J().k("g", list(*b[s])).k("card", static_cast<int64_t>(b[s]->Cardinality())).k("empty", b[s]->IsEmpty()));
                });
                break;
            case 21: case 22: {
                // positioning: at the key, or at the first larger value
                int a = r.Below(n);
                int64_t off = r.Chance(60) ? 0 : r.Below(sp.hi[a] - sp.lo[a]);
                int64_t key = sp.lo[a] + off;
                int nxt = r.Below(3);
                t.Op("seek", J().k("s", s).k("a", a + 1).k("off", off).k("nxt", nxt), [&] {
                    auto it = b[s]->EqualOrLarger(key);
                    auto cp = it;           // iterators are copied and moved too
                    auto mv = std::move(it);
                    if (r.Chance(50)) cp = mv;
                    std::vector<std::pair<int, int>> got;
                    for (int q = 0; q <= nxt; q++) {
                        if (cp == b[s]->End()) break;
                        got.push_back(sp.Of(*cp));
                        ++cp;
                    }
                    bool same = true;
                    if (!got.empty()) same = (sp.Of(*mv) == got[0]);
                    return Out(J().k("got", got).k("same", same));
                });
                break;
            }
            case 23: case 24: {
                int d = r.Below(kSlots);
                int kind = r.Below(3);  // buffer, stream, stream with prefix and suffix
                t.Op("saveload", J().k("s", s).k("d", d), [&] {
                    auto bytes = b[s]->Serialize(pool.get());
                    int64_t sz = bytes->size();
                    int64_t rep = b[s]->GetSizeInBytes();
                    auto x = std::make_unique<B>();
                    if (r.Chance(30)) x->Add(7);  // previous contents must not survive
                    int64_t consumed = sz;
                    paimon::Status st;
                    if (kind == 0) {
                        st = x->Deserialize(bytes->data(), bytes->size());
                    } else {
                        std::string buf = kind == 1 ? "" : "prefix!";
                        int64_t pre = buf.size();
                        buf.append(bytes->data(), bytes->size());
                        if (kind == 2) buf += "tail";
                        auto in = std::make_shared<paimon::ByteArrayInputStream>(buf.data(), buf.size());
                        st = in->Seek(pre, paimon::FS_SEEK_SET);
                        if (st.ok()) st = x->Deserialize(in.get());
                        if (st.ok()) consumed = in->GetPos().value() - pre;
                    }
                    if (!st.ok()) return Out::Err();
                    b[d] = std::move(x);
                    live[d] = true;
                    return Out(J().k("sz", sz).k("rep", rep).k("used", consumed));
                });
                break;
            }
            case 25: {
                t.Op("trunc", J().k("s", s), [&] {
                    auto bytes = b[s]->Serialize(pool.get());
                    size_t cut = r.Below(bytes->size());
                    std::unique_ptr<char[]> exact(new char[cut + 1]);
                    memcpy(exact.get(), bytes->data(), cut);
                    B x;
                    auto st = x.Deserialize(exact.get(), cut);
                    return Out::Of(st);
                });
                break;
            }
            case 26:
                t.Op("text", J().k("s", s), [&] {
                    if (b[s]->Cardinality() > 60) return Out(J().k("big", true).k("g", list(*b[s])));
                    std::string str = b[s]->ToString();
                    std::vector<std::vector<int>> g;
                    int64_t prev = -5;
                    size_t p = 0;
                    bool shape = !str.empty() && str.front() == '{' && str.back() == '}';
                    p = 1;
                    while (shape && p < str.size() - 1) {
                        size_t q = str.find_first_of(",}", p);
                        int64_t v = strtoll(str.substr(p, q - p).c_str(), nullptr, 10);
                        auto a = sp.Of(v);
                        if (!g.empty() && a.first == g.back()[0] && a.first != 0 && v == prev + 1) g.back()[2] = a.second;
                        else g.push_back({a.first, a.second, a.second});
                        prev = v;
                        p = q + 1;
                    }
                    return Out(J().k("big", !shape).k("g", g));
                });
                break;
        }
        if constexpr (std::is_same_v<B, RoaringBitmap64>) {
            if (r.Chance(5)) {
                std::vector<int> as;
                RoaringBitmap32 x;
                for (int a = 0; a < n; a++)
                    if (sp.hi[a] < INT32_MAX && r.Chance(50)) {
                        x.AddRange(sp.lo[a], sp.hi[a]);
                        as.push_back(a + 1);
                    }
                int d = r.Below(kSlots);
                bool assign = r.Chance(50);
                t.Op("from32", J().k("as", as).k("d", d), [&] {
                    if (assign) *b[d] = x; else b[d] = std::make_unique<B>(x);
                    live[d] = true;
                    return Out();
                });
            }
        }
    }
    for (int i = 0; i < kSlots; i++)
        if (live[i])
            t.Op("list", J().k("s", i), [&] {
                return Out(J().k("g", list(*b[i])).k("card", static_cast<int64_t>(b[i]->Cardinality())).k("empty", b[i]->IsEmpty()));
            });
}

int main(int argc, char** argv) {
    return vt::Run(argc, argv, [](vt::Trace& t) {
        if (t.index % 2) Sequence<RoaringBitmap32, int32_t>(t, false);
        else Sequence<RoaringBitmap64, int64_t>(t, true);
    });
}
