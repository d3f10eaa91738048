// C21: ranges and overlap groups.  Numbers near the ends of the int64 domain are reported
// relative to abstract ends -BIG/+BIG, which keeps order and neighbourhood.
#include <algorithm>

#include "paimon/common/utils/range_helper.h"
#include "paimon/utils/range.h"
#include "vtrace.h"

using paimon::Range;
using paimon::RangeHelper;
using vt::J;
using vt::Out;

static const int64_t kBig = 1000000;
static int64_t Enc(int64_t v) {
    if (v > INT64_MAX - 1000) return kBig - (INT64_MAX - v);
    if (v < INT64_MIN + 1000) return -kBig + (v - INT64_MIN);
    if (v > 500000 || v < -500000) return 777777;  // never an input
    return v;
}
static int64_t Value(vt::Rng& r, bool ends) {
    if (ends && r.Chance(25)) return INT64_MAX - r.Below(6);
    if (ends && r.Chance(10)) return INT64_MIN + r.Below(6);
    return r.In(0, r.Chance(50) ? 12 : 60);
}
static Range Make(vt::Rng& r, bool ends) {
    int64_t a = Value(r, ends), b = Value(r, ends);
    if (r.Chance(40) && a < INT64_MAX - 3) b = a + r.In(0, 3);
    if (a > b) std::swap(a, b);
    return Range(a, b);
}
static std::pair<int64_t, int64_t> P(const Range& x) { return {Enc(x.from), Enc(x.to)}; }
static std::vector<std::pair<int64_t, int64_t>> L(const std::vector<Range>& v) {
    std::vector<std::pair<int64_t, int64_t>> o;
    for (auto& x : v) o.push_back(P(x));
    return o;
}

struct Item {
    int id;
    int64_t lo, hi;
    bool bad;
};

static void Gen(vt::Trace& t) {
    auto& r = t.rng;
    bool ends = r.Chance(40);
    t.Init(J().k("ends", ends));
    int n = r.In(8, 20);
    for (int step = 0; step < n; step++) {
        auto mk = [&](int mx) {
            std::vector<Range> v;
            int m = r.In(0, mx);
            for (int i = 0; i < m; i++) v.push_back(r.Chance(15) && !v.empty() ? r.Pick(v) : Make(r, ends));
            return v;
        };
        switch (r.Below(7)) {
            case 0: case 1: {
                auto in = mk(8);
                bool adj = r.Chance(50);
                t.Op("merge", J().k("in", L(in)).k("adj", adj), [&] {
                    auto keep = in;
                    auto out = Range::SortAndMergeOverlap(in, adj);
                    return Out(J().k("out", L(out)).k("kept", keep == in));
                });
                break;
            }
            case 2: {
                // sorted and disjoint operands, as documented; produced independently of the code
                auto norm = [&](std::vector<Range> v) {
                    std::sort(v.begin(), v.end(), [](const Range& a, const Range& b) { return a.from < b.from; });
                    std::vector<Range> o;
                    for (auto& x : v)
                        if (o.empty() || x.from > o.back().to) o.push_back(x);
                    return o;
                };
                auto a = norm(mk(8)), b = norm(mk(8));
                t.Op("and", J().k("a", L(a)).k("b", L(b)), [&] { return Out(J().k("out", L(Range::And(a, b)))); });
                break;
            }
            case 3: {
                Range a = Make(r, ends);
                auto in = mk(6);
                t.Op("excl", J().k("a", P(a)).k("in", L(in)), [&] { return Out(J().k("out", L(a.Exclude(in)))); });
                break;
            }
            case 4: {
                Range a = Make(r, ends), b = r.Chance(20) ? a : Make(r, ends);
                t.Op("pair", J().k("a", P(a)).k("b", P(b)), [&] {
                    auto x = Range::Intersection(a, b);
                    bool big = a.from < -1000 || a.to > 1000000;
                    return Out(J().k("has", Range::HasIntersection(a, b)).k("x", x ? L({*x}) : L({}))
                                   .k("eq", a == b).k("lt", a < b).k("gt", b < a)
                                   .k("count", big ? -1 : a.Count())
                                   .k("text", a.ToString() == "[" + std::to_string(a.from) + ", " + std::to_string(a.to) + "]"));
                });
                break;
            }
            case 5: {
                std::vector<Item> in;
                int m = r.In(0, 9);
                std::vector<std::vector<int64_t>> desc;
                bool anybad = false;
                for (int i = 0; i < m; i++) {
                    Range x = Make(r, ends);
                    bool bad = r.Chance(2);
                    anybad |= bad;
                    in.push_back({i + 1, x.from, x.to, bad});
                    desc.push_back({Enc(x.from), Enc(x.to)});
                }
                t.Op("group", J().k("in", desc).k("fails", anybad), [&] {
                    RangeHelper<Item> h(
                        [](const Item& i) -> paimon::Result<int64_t> {
                            if (i.bad) return paimon::Status::Invalid("bad");
                            return i.lo;
                        },
                        [](const Item& i) -> paimon::Result<int64_t> { return i.hi; });
                    auto cp = in;
                    auto res = h.MergeOverlappingRanges(std::move(cp));
                    if (!res.ok()) return Out::Err();
                    std::vector<std::vector<int>> g;
                    for (auto& x : res.value()) {
                        g.emplace_back();
                        for (auto& y : x) {
                            // an item must come back unharmed
                            bool same = y.lo == in[y.id - 1].lo && y.hi == in[y.id - 1].hi;
                            g.back().push_back(same ? y.id : 0);
                        }
                    }
                    return Out(J().k("out", g));
                });
                break;
            }
            case 6: {
                std::vector<Item> in;
                int m = r.In(0, 4);
                std::vector<std::vector<int64_t>> desc;
                Range base = Make(r, ends);
                for (int i = 0; i < m; i++) {
                    Range x = r.Chance(75) ? base : Make(r, ends);
                    in.push_back({i + 1, x.from, x.to, false});
                    desc.push_back({Enc(x.from), Enc(x.to)});
                }
                t.Op("same", J().k("in", desc), [&] {
                    RangeHelper<Item> h([](const Item& i) -> paimon::Result<int64_t> { return i.lo; },
                                        [](const Item& i) -> paimon::Result<int64_t> { return i.hi; });
                    auto res = h.AreAllRangesSame(in);
                    if (!res.ok()) return Out::Err();
                    return Out(J().k("r", res.value()));
                });
                break;
            }
        }
    }
}

int main(int argc, char** argv) { return vt::Run(argc, argv, Gen); }
