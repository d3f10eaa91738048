// C22: bit-sliced index.  Values and row ids are reported as ranks (order is all that matters).
#include <algorithm>

#include "paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.h"
#include "paimon/memory/memory_pool.h"
#include "vtrace.h"

using paimon::BitSliceIndexRoaringBitmap;
using paimon::RoaringBitmap32;
using vt::J;
using vt::Out;

static void Gen(vt::Trace& t) {
    auto& r = t.rng;
    auto pool = paimon::GetDefaultPool();
    // the pool of values of this trace
    std::set<int64_t> vs;
    int64_t base = 0;
    switch (r.Below(5)) {
        case 0: base = 0; break;
        case 1: base = r.In(1, 1000); break;
        case 2: base = (1ll << 31) - 2; break;
        case 3: base = (1ll << 40) + 5; break;
        case 4: base = 0; break;
    }
    int nv = r.In(1, 9);
    for (int i = 0; i < nv; i++) {
        switch (r.Below(6)) {
            case 0: vs.insert(base); break;
            case 1: case 2: vs.insert(base + r.Below(8)); break;
            case 3: vs.insert(base + (1ll << r.Below(40)) - r.Below(2)); break;
            case 4: vs.insert(base + r.Below(300)); break;
            case 5: vs.insert(r.Chance(30) ? INT64_MAX - r.Below(3) : base + r.Below(70000)); break;
        }
    }
    for (int64_t v : std::vector<int64_t>(vs.begin(), vs.end())) {  // neighbours as literals
        if (r.Chance(40) && v < INT64_MAX) vs.insert(v + 1);
        if (r.Chance(40)) vs.insert(v - 1);
    }
    if (r.Chance(30)) vs.insert(-5);
    std::vector<int64_t> val(vs.begin(), vs.end());  // rank k (1-based) = val[k-1]
    std::set<int32_t> rs;
    int nr = r.In(1, 14);
    for (int i = 0; i < nr; i++)
        rs.insert(r.Chance(80) ? r.Below(20) : static_cast<int32_t>(r.Chance(50) ? r.Below(200000) : INT32_MAX - r.Below(3)));
    std::vector<int32_t> row(rs.begin(), rs.end());
    auto rowRank = [&](int32_t x) {
        auto it = std::lower_bound(row.begin(), row.end(), x);
        return it != row.end() && *it == x ? static_cast<int>(it - row.begin()) + 1 : 0;
    };
    auto rank = [&](int64_t v) { return static_cast<int>(std::lower_bound(val.begin(), val.end(), v) - val.begin()) + 1; };
    // declared bounds: usually the minimum and maximum of what will be appended, sometimes wider or wrong
    int lo = r.In(1, val.size()), hi = r.In(1, val.size());
    if (lo > hi && r.Chance(90)) std::swap(lo, hi);
    while (val[lo - 1] < 0 && r.Chance(80) && lo < static_cast<int>(val.size())) lo++;
    if (lo > hi && r.Chance(90)) hi = lo;
    int firstNonNeg = rank(0);
    t.Init(J().k("nv", static_cast<int>(val.size())).k("nr", static_cast<int>(row.size())).k("nonneg", firstNonNeg));
    std::unique_ptr<BitSliceIndexRoaringBitmap::Appender> app;
    std::shared_ptr<BitSliceIndexRoaringBitmap> idx;
    t.Op("create", J().k("lo", lo).k("hi", hi), [&] {
        auto a = BitSliceIndexRoaringBitmap::Appender::Create(val[lo - 1], val[hi - 1]);
        if (!a.ok()) return Out::Err();
        app = std::move(a).value();
        return Out();
    });
    if (!app) return;
    int n = r.In(0, 16);
    for (int i = 0; i < n; i++) {
        int rr = r.Below(row.size());
        int v = r.Chance(90) ? r.In(lo, hi) : r.In(1, val.size());
        t.Op("append", J().k("row", rr + 1).k("v", v), [&] { return Out::Of(app->Append(row[rr], val[v - 1])); });
    }
    t.Op("notempty", J(), [&] { return Out(J().k("r", app->IsNotEmpty())); });
    idx = app->Build();
    auto rows = [&](const RoaringBitmap32& b) {
        std::vector<int> o;
        for (auto it = b.Begin(); it != b.End(); ++it) o.push_back(rowRank(*it));
        return o;
    };
    auto queries = [&](int q) {
        for (int i = 0; i < q; i++) {
            int l = r.In(1, val.size());
            int k = r.Below(7);
            const char* nm[] = {"eq", "ne", "lt", "le", "gt", "ge", "nn"};
            int64_t lit = val[l - 1];
            t.Op(nm[k], J().k("v", l), [&] {
                paimon::Result<RoaringBitmap32> res = RoaringBitmap32();
                switch (k) {
                    case 0: res = idx->Equal(lit); break;
                    case 1: res = idx->Compare(paimon::Function::Type::NOT_EQUAL, lit); break;
                    case 2: res = idx->LessThan(lit); break;
                    case 3: res = idx->LessOrEqual(lit); break;
                    case 4: res = idx->GreaterThan(lit); break;
                    case 5: res = idx->GreaterOrEqual(lit); break;
                    case 6: res = idx->IsNotNull(); break;
                }
                if (!res.ok()) return Out::Err();
                return Out(J().k("rows", rows(res.value())));
            });
        }
    };
    queries(r.In(3, 10));
    t.Op("saveload", J(), [&] {
        auto bytes = app->Serialize(pool);
        auto in = std::make_shared<paimon::ByteArrayInputStream>(bytes->data(), bytes->size());
        auto res = BitSliceIndexRoaringBitmap::Create(in);
        if (!res.ok()) return Out::Err();
        bool same = *res.value() == *idx;
        idx = res.value();
        static std::vector<std::shared_ptr<paimon::Bytes>> keep;
        keep.push_back(bytes);
        return Out(J().k("same", same).k("rest", static_cast<int64_t>(bytes->size()) - in->GetPos().value()));
    });
    queries(r.In(3, 10));
    t.Op("trunc", J(), [&] {
        auto bytes = app->Serialize(pool);
        int cut = r.Below(bytes->size());
        std::unique_ptr<char[]> b(new char[cut]);
        memcpy(b.get(), bytes->data(), cut);
        auto in = std::make_shared<paimon::ByteArrayInputStream>(b.get(), cut);
        auto res = BitSliceIndexRoaringBitmap::Create(in);
        return Out::Of(res.status());
    });
}

int main(int argc, char** argv) { return vt::Run(argc, argv, Gen); }
