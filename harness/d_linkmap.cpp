// C34: insertion-ordered map.
#include <string>

#include "paimon/common/utils/linked_hash_map.h"
#include "vtrace.h"

using namespace paimon;  // NOLINT
using vt::J;
using vt::Out;

// keys and values that own heap memory, so that the sanitizer sees stale references
static std::string KeyText(int k) { return "a key long enough for the heap #" + std::to_string(k); }
struct Val {
    std::vector<int> v = {0};
    Val() = default;
    explicit Val(int x) : v({x}) {}
    bool operator==(const Val& o) const { return v == o.v; }
    int Get() const { return v[0]; }
};

template <typename K>
struct Conv;
template <>
struct Conv<std::string> {
    static std::string To(int k) { return KeyText(k); }
    static int From(const std::string& s) { return std::stoi(s.substr(s.find('#') + 1)); }
};
template <>
struct Conv<int> {
    static int To(int k) { return k; }
    static int From(int k) { return k; }
};

template <typename K>
static void Gen(vt::Trace& t) {
    using Map = LinkedHashMap<K, Val>;
    using C = Conv<K>;
    auto& r = t.rng;
    int nkeys = r.Pick(std::vector<int>{2, 3, 5, 8, 40});
    t.Init(J().k("keys", nkeys));
    auto maps = std::make_unique<std::vector<std::unique_ptr<Map>>>();
    maps->push_back(std::make_unique<Map>());
    maps->push_back(std::make_unique<Map>());
    auto dump = [&](const Map& m) {
        std::vector<std::vector<int>> order, found;
        for (const auto& [k, v] : m) order.push_back({C::From(k), v.Get()});
        for (int k = 0; k < nkeys; k++) {
            auto it = m.find(C::To(k));
            found.push_back({k, it == m.end() ? -1 : (C::From(it->first) == k ? it->second.Get() : -2)});
        }
        std::vector<int> keys, keyset;
        for (const auto& k : m.key_vec()) keys.push_back(C::From(k));
        for (const auto& k : m.key_set()) keyset.push_back(C::From(k));
        return J().k("order", order).k("found", found).k("keys", keys).k("keyset", keyset)
            .k("size", static_cast<int64_t>(m.size())).k("empty", m.empty());
    };
    auto fin = [&](J j) {
        Map &a = *(*maps)[0], &b = *(*maps)[1];
        return Out(j.k("a", dump(a)).k("b", dump(b)).k("eq", a == b).k("ne", a != b));
    };
    int steps = r.In(5, 45);
    int eraseness = r.Pick(std::vector<int>{10, 25, 45});
    for (int s = 0; s < steps; s++) {
        int w = r.Chance(75) ? 0 : 1;
        Map& m = *(*maps)[w];
        const char* name = w == 0 ? "a" : "b";
        int k = r.Below(nkeys), v = r.In(1, 9);
        J args = J().k("m", name).k("k", k).k("v", v);
        auto entry = [&](auto it) {
            return J().k("r", std::vector<int>{C::From(it->first), it->second.Get()});
        };
        auto next = [&](auto it) {
            return it == m.end() ? J().k("r", std::vector<int>{}) : entry(it);
        };
        if (r.Chance(eraseness)) {
            if (m.size() > 0 && r.Chance(40)) {
                auto it = m.begin();
                for (int q = r.Below(m.size()); q > 0; q--) ++it;
                int own = C::From(it->first);
                t.Op("erase_own", J().k("m", name).k("k", own), [&] { return fin(next(m.erase(it->first))); });
            } else {
                t.Op("erase", args, [&] { return fin(next(m.erase(C::To(k)))); });
            }
            continue;
        }
        switch (r.Below(10)) {
            case 0: case 1: case 2:
                t.Op("insert", args, [&] { return fin(entry(m.insert(C::To(k), Val(v)))); });
                break;
            case 3: case 4:
                t.Op("assign", args, [&] { return fin(entry(m.insert_or_assign(C::To(k), Val(v)))); });
                break;
            case 5: case 6:
                t.Op("index_set", args, [&] {
                    m[C::To(k)] = Val(v);
                    return fin(J().k("r", std::vector<int>{k, m[C::To(k)].Get()}));
                });
                break;
            case 7:
                t.Op("index", args, [&] { return fin(J().k("r", std::vector<int>{k, m[C::To(k)].Get()})); });
                break;
            case 8:
                if (r.Chance(50)) {
                    t.Op("copy", args, [&] { *(*maps)[1 - w] = m; return fin(J()); });
                } else {
                    t.Op("copy_new", args, [&] { (*maps)[1 - w] = std::make_unique<Map>(m); return fin(J()); });
                }
                break;
            default:
                t.Op("copy_self", args, [&] { Map& same = m; m = same; return fin(J()); });
        }
    }
    t.Op("end", J(), [&] { return fin(J()); });
    maps.reset();
}

int main(int argc, char** argv) {
    return vt::Run(argc, argv, [](vt::Trace& t) {
        if (t.index % 3 == 0) Gen<int>(t); else Gen<std::string>(t);
    });
}
