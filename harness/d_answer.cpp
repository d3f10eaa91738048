// C24: expressions of index answers, and the default compound conditions of index readers.
#include "paimon/file_index/bitmap_index_result.h"
#include "paimon/file_index/file_index_reader.h"
#include "paimon/file_index/file_index_result.h"
#include "paimon/predicate/literal.h"
#include "vtrace.h"

namespace paimon {
// Literal needs Arrow; the readers under test only pass literals through.
class Literal::Impl {
 public:
    int v;
};
Literal::Literal(FieldType, int32_t v) : impl_(new Impl{v}) {}
Literal::Literal(const Literal& o) : impl_(new Impl{o.impl_->v}) {}
Literal::~Literal() = default;
}  // namespace paimon

using paimon::BitmapIndexResult;
using paimon::FileIndexResult;
using paimon::Literal;
using paimon::RoaringBitmap32;
using vt::J;
using vt::Out;
using Ptr = std::shared_ptr<FileIndexResult>;

class Custom : public FileIndexResult {
 public:
    explicit Custom(bool b) : b_(b) {}
    paimon::Result<bool> IsRemain() const override { return b_; }
    std::string ToString() const override { return "custom"; }

 private:
    bool b_;
};

static const int kRows = 6;

// [kind, rows]: kind 0 = no row set (all), 1 = no row set (none), 2 = rows, 3 = other type all, 4 = other type none
static J Describe(const Ptr& p) {
    J j;
    if (!p) return j.k("kind", "null").k("rows", std::vector<int>{}).k("remain", false);
    auto rem = p->IsRemain();
    if (auto b = std::dynamic_pointer_cast<BitmapIndexResult>(p)) {
        auto bm = b->GetBitmap();
        if (!bm.ok()) return j.k("kind", "fail").k("rows", std::vector<int>{}).k("remain", rem.ok());
        std::vector<int> rows;
        for (auto it = bm.value()->Begin(); it != bm.value()->End(); ++it) rows.push_back(*it);
        bool text = p->ToString() == bm.value()->ToString();
        return j.k("kind", text ? "rows" : "text").k("rows", rows).k("remain", rem.ok() ? rem.value() : false);
    }
    std::string kind = "other";
    if (std::dynamic_pointer_cast<paimon::Remain>(p)) kind = p->ToString() == "REMAIN" ? "all" : "text";
    if (std::dynamic_pointer_cast<paimon::Skip>(p)) kind = p->ToString() == "SKIP" ? "none" : "text";
    return j.k("kind", kind).k("rows", std::vector<int>{}).k("remain", rem.ok() ? rem.value() : false);
}

class TableReader : public paimon::FileIndexReader {
 public:
    std::vector<Ptr> eq, ne;
    paimon::Result<Ptr> VisitEqual(const Literal& l) override { return Get(eq, l); }
    paimon::Result<Ptr> VisitNotEqual(const Literal& l) override { return Get(ne, l); }
    int fail_at = -1;

 private:
    paimon::Result<Ptr> Get(const std::vector<Ptr>& v, const Literal& l) {
        if (l.impl_->v == fail_at) return paimon::Status::Invalid("fail");
        return v[l.impl_->v];
    }
};
class PlainReader : public paimon::FileIndexReader {};

static void Gen(vt::Trace& t) {
    auto& r = t.rng;
    t.Init(J().k("rows", kRows));
    std::vector<Ptr> node;
    std::vector<int> calls;
    auto leaf = [&]() {
        int kind = r.Below(10);
        int id = node.size() + 1;
        if (kind == 0) t.Op("leaf", J().k("id", id).k("kind", "all").k("rows", std::vector<int>{}), [&] { node.push_back(FileIndexResult::Remain()); return Out(); });
        else if (kind == 1) t.Op("leaf", J().k("id", id).k("kind", "none").k("rows", std::vector<int>{}), [&] { node.push_back(FileIndexResult::Skip()); return Out(); });
        else if (kind == 2) {
            bool b = r.Chance(50);
            t.Op("leaf", J().k("id", id).k("kind", b ? "oall" : "onone").k("rows", std::vector<int>{}), [&] { node.push_back(std::make_shared<Custom>(b)); return Out(); });
        } else if (kind == 3 && r.Chance(40)) {
            t.Op("leaf", J().k("id", id).k("kind", "fail").k("rows", std::vector<int>{}), [&] {
                node.push_back(std::make_shared<BitmapIndexResult>([]() -> paimon::Result<RoaringBitmap32> { return paimon::Status::IOError("x"); }));
                return Out();
            });
        } else {
            std::vector<int> rows;
            RoaringBitmap32 b;
            int dens = r.Pick(std::vector<int>{0, 15, 50, 85});
            for (int i = 0; i < kRows; i++)
                if (r.Chance(dens)) { rows.push_back(i); b.Add(i); }
            t.Op("leaf", J().k("id", id).k("kind", "rows").k("rows", rows), [&] {
                auto used = std::make_shared<int>(0);
                node.push_back(std::make_shared<BitmapIndexResult>([b, used]() -> paimon::Result<RoaringBitmap32> {
                    ++*used;
                    if (*used > 1) return RoaringBitmap32::From({99});  // asked twice: wrong rows
                    return b;
                }));
                return Out();
            });
        }
    };
    int nl = r.In(2, 6);
    for (int i = 0; i < nl; i++) leaf();
    int n = r.In(4, 14);
    for (int i = 0; i < n; i++) {
        int a = r.Below(node.size()), b = r.Below(node.size());
        bool conj = r.Chance(50);
        int id = node.size() + 1;
        if (r.Chance(75)) {
            t.Op(conj ? "and" : "or", J().k("a", a + 1).k("b", b + 1).k("id", id), [&] {
                auto res = conj ? node[a]->And(node[b]) : node[a]->Or(node[b]);
                if (!res.ok()) { node.push_back(FileIndexResult::Remain()); return Out::Err(); }
                node.push_back(res.value());
                return Out();
            });
        }
        if (r.Chance(50)) {
            int q = r.Below(node.size());
            t.Op("look", J().k("a", q + 1), [&] { return Out(Describe(node[q])); });
        }
        if (r.Chance(20)) {
            // conditions with several literals over a table of single answers
            TableReader rd;
            std::vector<int> tab, lits;
            for (int q = 0; q < 4; q++) { int x = r.Below(node.size()); tab.push_back(x + 1); rd.eq.push_back(node[x]); rd.ne.push_back(node[x]); }
            std::vector<Literal> ls;
            int m = r.In(0, 5);
            for (int q = 0; q < m; q++) { int x = r.Below(4); lits.push_back(tab[x]); ls.emplace_back(paimon::FieldType::DATE, x); }
            bool isin = r.Chance(50);
            int id2 = node.size() + 1;
            t.Op(isin ? "in" : "notin", J().k("lits", lits).k("id", id2), [&] {
                auto res = isin ? rd.VisitIn(ls) : rd.VisitNotIn(ls);
                if (!res.ok()) { node.push_back(FileIndexResult::Remain()); return Out::Err(); }
                if (!res.value()) { node.push_back(FileIndexResult::Remain()); return Out(J().k("nul", true)); }
                node.push_back(res.value());
                return Out(J().k("nul", false));
            });
        }
        if (r.Chance(8)) {
            PlainReader pr;
            int which = r.Below(13);
            t.Op("plain", J().k("which", which), [&] {
                Literal l(paimon::FieldType::DATE, 1);
                std::vector<Literal> ls = {l, l};
                paimon::Result<Ptr> res = Ptr();
                switch (which) {
                    case 0: res = pr.VisitIsNotNull(); break;
                    case 1: res = pr.VisitIsNull(); break;
                    case 2: res = pr.VisitStartsWith(l); break;
                    case 3: res = pr.VisitEndsWith(l); break;
                    case 4: res = pr.VisitContains(l); break;
                    case 5: res = pr.VisitLessThan(l); break;
                    case 6: res = pr.VisitGreaterOrEqual(l); break;
                    case 7: res = pr.VisitNotEqual(l); break;
                    case 8: res = pr.VisitLessOrEqual(l); break;
                    case 9: res = pr.VisitEqual(l); break;
                    case 10: res = pr.VisitGreaterThan(l); break;
                    case 11: res = pr.VisitIn(ls); break;
                    case 12: res = pr.VisitNotIn(ls); break;
                }
                if (!res.ok()) return Out::Err();
                return Out(Describe(res.value()));
            });
        }
    }
    for (size_t q = 0; q < node.size(); q++)
        t.Op("look", J().k("a", static_cast<int>(q) + 1), [&] { return Out(Describe(node[q])); });
}

int main(int argc, char** argv) { return vt::Run(argc, argv, Gen); }
