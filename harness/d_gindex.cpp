// C25: expressions of global index results.  A row id v is reported as k * 1000000 + rest where
// v = k * 2^32 + rest, |rest| < 2^31: addition and order carry over.
#include <map>

#include "paimon/global_index/bitmap_global_index_result.h"
#include "paimon/global_index/bitmap_vector_search_global_index_result.h"
#include "paimon/global_index/global_index_result.h"
#include "vtrace.h"

using paimon::BitmapGlobalIndexResult;
using paimon::BitmapVectorSearchGlobalIndexResult;
using paimon::GlobalIndexResult;
using paimon::Range;
using paimon::RoaringBitmap64;
using vt::J;
using vt::Out;
using Ptr = std::shared_ptr<GlobalIndexResult>;

static int64_t Enc(int64_t v) {
    int64_t k = (v + (1ll << 31)) >> 32;
    int64_t rest = v - (k << 32);
    if (rest > 400000 || rest < -400000 || k > 1000 || k < -1000) return -999999999;
    return k * 1000000 + rest;
}
static std::vector<int64_t> EncAll(const std::vector<int64_t>& v) {
    std::vector<int64_t> o;
    for (auto x : v) o.push_back(Enc(x));
    return o;
}

// a foreign implementation: unsorted, with repetition
class Foreign : public GlobalIndexResult {
 public:
    explicit Foreign(std::vector<int64_t> v) : v_(std::move(v)) {}
    class It : public GlobalIndexResult::Iterator {
     public:
        explicit It(const std::vector<int64_t>* v) : v_(v) {}
        bool HasNext() const override { return p_ < v_->size(); }
        int64_t Next() override { return (*v_)[p_++]; }
        const std::vector<int64_t>* v_;
        size_t p_ = 0;
    };
    paimon::Result<bool> IsEmpty() const override { return v_.empty(); }
    paimon::Result<std::unique_ptr<GlobalIndexResult::Iterator>> CreateIterator() const override {
        return std::make_unique<It>(&v_);
    }
    paimon::Result<Ptr> AddOffset(int64_t) override { return paimon::Status::NotImplemented("no"); }
    std::string ToString() const override { return "foreign"; }
    std::vector<int64_t> v_;
};

static void Gen(vt::Trace& t) {
    auto& r = t.rng;
    auto pool = paimon::GetDefaultPool();
    t.Init(J().k("z", 0));
    std::vector<Ptr> node;
    auto rows = [&]() {
        std::set<int64_t> s;
        int m = r.In(0, 9);
        for (int i = 0; i < m; i++) {
            int64_t k = r.Chance(75) ? 0 : r.In(1, 3);
            int64_t rest = r.Chance(80) ? r.Below(14) : r.Below(300);
            if (k > 0 && r.Chance(50)) rest = -r.In(1, 5);
            s.insert((k << 32) + rest);
        }
        return std::vector<int64_t>(s.begin(), s.end());
    };
    auto leaf = [&]() {
        auto v = rows();
        switch (r.Below(5)) {
            case 0: case 1: {
                t.Op("plain", J().k("rows", EncAll(v)), [&] {
                    auto used = std::make_shared<int>(0);
                    node.push_back(std::make_shared<BitmapGlobalIndexResult>([v, used]() -> paimon::Result<RoaringBitmap64> {
                        if (++*used > 1) return paimon::Status::Invalid("asked twice");
                        return RoaringBitmap64::From(v);
                    }));
                    return Out();
                });
                break;
            }
            case 2: case 3: {
                std::vector<float> sc;
                std::vector<int> scd;
                for (size_t i = 0; i < v.size(); i++) { int x = r.In(-20, 20); scd.push_back(x); sc.push_back(x * 0.5f); }
                t.Op("scored", J().k("rows", EncAll(v)).k("sc", scd), [&] {
                    auto s2 = sc;
                    node.push_back(std::make_shared<BitmapVectorSearchGlobalIndexResult>(RoaringBitmap64::From(v), std::move(s2)));
                    return Out();
                });
                break;
            }
            case 4: {
                if (r.Chance(50)) {
                    std::vector<Range> rs;
                    std::vector<std::pair<int64_t, int64_t>> d;
                    int m = r.In(0, 4);
                    for (int i = 0; i < m; i++) {
                        int64_t a = r.Chance(80) ? r.Below(20) : (1ll << 32) - 3 + r.Below(4);
                        int64_t b = a + r.Below(6);
                        rs.emplace_back(a, b);
                        d.push_back({Enc(a), Enc(a) + (b - a)});
                    }
                    t.Op("ranges", J().k("rs", d), [&] { node.push_back(BitmapGlobalIndexResult::FromRanges(rs)); return Out(); });
                } else {
                    for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.Below(i)]);
                    if (!v.empty() && r.Chance(50)) v.push_back(v[0]);
                    t.Op("foreign", J().k("rows", EncAll(v)), [&] { node.push_back(std::make_shared<Foreign>(v)); return Out(); });
                }
                break;
            }
        }
    };
    auto show = [&](const Ptr& p) {
        J j;
        std::vector<int64_t> it;
        auto ci = p->CreateIterator();
        bool fail = !ci.ok();
        if (!fail)
            while (ci.value()->HasNext()) it.push_back(Enc(ci.value()->Next()));
        auto em = p->IsEmpty();
        auto rg = p->ToRanges();
        std::vector<std::pair<int64_t, int64_t>> ranges;
        if (rg.ok())
            for (auto& x : rg.value()) ranges.push_back({Enc(x.from), Enc(x.from) + (x.to - x.from)});
        std::vector<int> sc;
        std::string kind = "foreign";
        bool text = true;
        if (auto b = std::dynamic_pointer_cast<BitmapGlobalIndexResult>(p)) {
            kind = "plain";
            auto bm = b->GetBitmap();
            text = bm.ok() && p->ToString() == bm.value()->ToString();
        }
        if (auto s = std::dynamic_pointer_cast<BitmapVectorSearchGlobalIndexResult>(p)) {
            kind = "scored";
            auto si = s->CreateVectorSearchIterator();
            std::vector<int64_t> ids;
            std::string want = "row ids: " + s->GetBitmap().value()->ToString() + ", scores: {";
            while (si.ok() && si.value()->HasNext()) {
                auto x = si.value()->NextWithScore();
                ids.push_back(Enc(x.first));
                sc.push_back(static_cast<int>(x.second * 2));
                char buf[32];
                snprintf(buf, sizeof(buf), "%s%.2f", ids.size() > 1 ? "," : "", x.second);
                want += buf;
            }
            text = ids == it && p->ToString() == want + "}" && s->GetScores().size() == ids.size();
            for (size_t i = 0; text && i < ids.size(); i++) text = static_cast<int>(s->GetScores()[i] * 2) == sc[i];
        }
        if (fail || !em.ok() || !rg.ok()) return Out::Err();
        return Out(j.k("kind", kind).k("it", it).k("empty", em.value()).k("ranges", ranges).k("sc", sc).k("text", text));
    };
    int nl = r.In(2, 5);
    for (int i = 0; i < nl; i++) leaf();
    int n = r.In(5, 14);
    for (int i = 0; i < n; i++) {
        int a = r.Below(node.size()), b = r.Below(node.size());
        switch (r.Below(6)) {
            case 0: case 1:
            case 2: {
                bool conj = r.Chance(50);
                t.Op(conj ? "and" : "or", J().k("a", a + 1).k("b", b + 1), [&] {
                    auto res = conj ? node[a]->And(node[b]) : node[a]->Or(node[b]);
                    if (!res.ok()) return Out::Err();
                    node.push_back(res.value());
                    bool scored = !!std::dynamic_pointer_cast<BitmapVectorSearchGlobalIndexResult>(res.value());
                    return Out(J().k("scored", scored));
                });
                break;
            }
            case 3: {
                int64_t off = r.Chance(70) ? r.Below(50) : (r.In(0, 2) << 32) + r.Below(5);
                t.Op("shift", J().k("a", a + 1).k("off", Enc(off)), [&] {
                    auto res = node[a]->AddOffset(off);
                    if (!res.ok()) return Out::Err();
                    node.push_back(res.value());
                    return Out();
                });
                break;
            }
            case 4:
                t.Op("saveload", J().k("a", a + 1), [&] {
                    auto bytes = GlobalIndexResult::Serialize(node[a], pool);
                    if (!bytes.ok()) return Out::Err();
                    auto bp = std::move(bytes).value();
                    auto res = GlobalIndexResult::Deserialize(bp->data(), bp->size(), pool);
                    if (!res.ok()) return Out::Err();
                    node.push_back(res.value());
                    // every proper prefix must be refused
                    int cut = r.Below(bp->size());
                    std::unique_ptr<char[]> p(new char[cut]);
                    memcpy(p.get(), bp->data(), cut);
                    bool refused = !GlobalIndexResult::Deserialize(p.get(), cut, pool).ok();
                    return Out(J().k("refused", refused));
                });
                break;
            case 5:
                t.Op("show", J().k("a", a + 1), [&] { return show(node[a]); });
                break;
        }
    }
    for (size_t q = 0; q < node.size(); q++)
        t.Op("show", J().k("a", static_cast<int>(q) + 1), [&] { return show(node[q]); });
}

int main(int argc, char** argv) { return vt::Run(argc, argv, Gen); }
