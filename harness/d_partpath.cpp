// C36: partition paths.
#include "paimon/core/utils/partition_path_utils.h"
#include "vtrace.h"

using namespace paimon;  // NOLINT
using vt::BytesOf;
using vt::J;
using vt::Out;

static std::string Text(vt::Rng& r) {
    if (r.Chance(3)) return "";
    std::string s;
    int n = r.Pick(std::vector<int>{1, 1, 2, 3, 6, 12, 40});
    int style = r.Below(4);
    static const std::string special = "\"#%'*/:=?\\{}[]^\x7f .-_~+&@!0F2";
    for (int k = 0; k < n; k++) {
        if (style == 0) s += static_cast<char>(r.Below(256));
        else if (style == 1) s += special[r.Below(special.size())];
        else if (style == 2) s += static_cast<char>(r.In('a', 'z'));
        else s += r.Chance(80) ? static_cast<char>(r.In(' ', '~')) : static_cast<char>(r.Below(256));
    }
    return s;
}

static void Gen(vt::Trace& t) {
    auto& r = t.rng;
    t.Init(J().k("kind", 0));
    if (t.index <= 32) {  // every byte, alone and inside a text
        for (int b = (t.index - 1) * 8; b < t.index * 8; b++) {
            for (std::string s : {std::string(1, static_cast<char>(b)), "x" + std::string(1, static_cast<char>(b)) + "y"}) {
                t.Op("escape", J().k("t", BytesOf(s)), [&] {
                    auto x = PartitionPathUtils::EscapePathName(s);
                    return x.ok() ? Out(J().k("q", BytesOf(x.value()))) : Out::Err();
                });
            }
        }
    }
    for (int n = r.In(1, 5); n > 0; n--) {
        std::string s = Text(r);
        t.Op("escape", J().k("t", BytesOf(s)), [&] {
            auto x = PartitionPathUtils::EscapePathName(s);
            return x.ok() ? Out(J().k("q", BytesOf(x.value()))) : Out::Err();
        });
        std::vector<std::pair<std::string, std::string>> p;
        std::string pj = "[";
        for (int d = r.Below(5); d > 0; d--) {
            p.emplace_back(Text(r), Text(r));
            if (pj.size() > 1) pj += ",";
            pj += "[" + J::V(BytesOf(p.back().first)) + "," + J::V(BytesOf(p.back().second)) + "]";
        }
        pj += "]";
        t.Op("path", J().raw("p", pj), [&] {
            auto x = PartitionPathUtils::GeneratePartitionPath(p);
            return x.ok() ? Out(J().k("q", BytesOf(x.value()))) : Out::Err();
        });
        t.Op("levels", J().raw("p", pj), [&] {
            auto x = PartitionPathUtils::GenerateHierarchicalPartitionPaths(p);
            if (!x.ok()) return Out::Err();
            std::vector<std::vector<int>> qs;
            for (auto& q : x.value()) qs.push_back(BytesOf(q));
            return Out(J().k("qs", qs));
        });
    }
}

int main(int argc, char** argv) { return vt::Run(argc, argv, Gen); }
