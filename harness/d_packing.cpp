// C35: ordered bin packing.  Weights are multiples of a unit, the specification sees the multiples.
#include <memory>

#include "paimon/common/utils/bin_packing.h"
#include "vtrace.h"

using namespace paimon;  // NOLINT
using vt::J;
using vt::Out;

struct Item {
    std::string name;  // owns heap memory and is moved around by the packing
    int64_t weight = 0;
};

static void Gen(vt::Trace& t) {
    auto& r = t.rng;
    t.Init(J().k("kind", 0));
    for (int n = r.In(1, 6); n > 0; n--) {
        int len = r.Pick(std::vector<int>{0, 1, 2, 3, 5, 9, 20, 60});
        int maxw = r.Pick(std::vector<int>{1, 2, 5, 10, 100});
        int target = r.Chance(10) ? 0 : r.In(1, r.Pick(std::vector<int>{2, 5, 12, 50, 300}));
        int64_t unit = r.Pick(std::vector<int64_t>{1, 1, 128 << 20, 1ll << 31, 1ll << 33, 1ll << 45});
        std::vector<int> w(len);
        for (int& x : w) x = r.Chance(15) ? r.Pick(std::vector<int>{0, target, target + 1, std::max(target - 1, 0)}) : r.In(0, maxw);
        int kind = r.Below(3);
        t.Op("pack", J().k("w", w).k("target", target).k("kind", kind), [&] {
            std::vector<std::vector<int>> bins;
            auto number = [](const std::string& s) { return std::stoi(s.substr(s.find('#') + 1)); };
            auto name = [](int k) { return "an item with a long enough name #" + std::to_string(k); };
            if (kind == 0) {
                std::vector<Item> items;
                for (int k = 0; k < len; k++) items.push_back({name(k + 1), w[k] * unit});
                auto packed = BinPacking::PackForOrdered<Item>(std::move(items), [](const Item& x) { return x.weight; }, target * unit);
                for (auto& b : packed) {
                    bins.emplace_back();
                    for (auto& x : b) bins.back().push_back(number(x.name));
                }
            } else if (kind == 1) {
                std::vector<std::shared_ptr<Item>> items;
                for (int k = 0; k < len; k++) items.push_back(std::make_shared<Item>(Item{name(k + 1), w[k] * unit}));
                auto packed = BinPacking::PackForOrdered<std::shared_ptr<Item>>(
                    std::move(items), [](const std::shared_ptr<Item>& x) { return x->weight; }, target * unit);
                for (auto& b : packed) {
                    bins.emplace_back();
                    for (auto& x : b) bins.back().push_back(number(x->name));
                }
            } else {
                std::vector<int> items;
                for (int k = 0; k < len; k++) items.push_back(k + 1);
                auto packed = BinPacking::PackForOrdered<int>(std::move(items), [&](const int& x) { return w[x - 1] * unit; }, target * unit);
                bins = packed;
            }
            return Out(J().k("bins", bins));
        });
    }
}

int main(int argc, char** argv) { return vt::Run(argc, argv, Gen); }
