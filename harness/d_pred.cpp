// Predicates on rows, batches and statistics, and the parts they are split into.
#include "paimon/common/data/binary_array.h"
#include "paimon/common/data/binary_array_writer.h"
#include "paimon/common/data/binary_string.h"
#include "paimon/common/data/generic_row.h"
#include "paimon/common/predicate/predicate_filter.h"
#include "paimon/common/predicate/predicate_utils.h"
#include "paimon/memory/memory_pool.h"
#include "preds.h"

namespace {
using paimon::PredicateFilter;
using preds::Pred;
using preds::Val;
using vt::J;
using Dom = std::shared_ptr<vals::Domain>;

std::vector<std::shared_ptr<arrow::Array>> Columns(const std::vector<Dom>& doms, const std::vector<std::vector<Val>>& rows) {
    std::vector<std::shared_ptr<arrow::Array>> out;
    for (size_t c = 0; c < doms.size(); c++) {
        std::string json = "[";
        for (auto& r : rows) json += (json.size() > 1 ? "," : "") + (r[c].empty() ? std::string("null") : doms[c]->Lit(r[c][0]));
        out.push_back(arrow::ipc::internal::json::ArrayFromJSON(doms[c]->type, json + "]").ValueOrDie());
    }
    return out;
}

paimon::VariantType Cell(const vals::Domain& d, const Val& v, paimon::MemoryPool* pool) {
    if (v.empty()) return paimon::NullType();
    auto l = preds::LitOf(d, v[0]);
    using T = arrow::Type;
    switch (d.type->id()) {
        case T::BOOL: return l.GetValue<bool>();
        case T::INT8: return static_cast<char>(l.GetValue<int8_t>());
        case T::INT16: return l.GetValue<int16_t>();
        case T::INT32: case T::DATE32: return l.GetValue<int32_t>();
        case T::INT64: return l.GetValue<int64_t>();
        case T::FLOAT: return l.GetValue<float>();
        case T::DOUBLE: return l.GetValue<double>();
        case T::STRING: return paimon::BinaryString::FromString(l.GetValue<std::string>(), pool);
        case T::BINARY: return std::shared_ptr<paimon::Bytes>(paimon::Bytes::AllocateBytes(l.GetValue<std::string>(), pool));
        case T::DECIMAL128: return l.GetValue<paimon::Decimal>();
        default: return l.GetValue<paimon::Timestamp>();
    }
}
paimon::GenericRow RowOf(const std::vector<Dom>& doms, const std::vector<Val>& v, paimon::MemoryPool* pool) {
    paimon::GenericRow row(doms.size());
    for (size_t i = 0; i < doms.size(); i++) row.SetField(i, Cell(*doms[i], v[i], pool));
    return row;
}

void Gen(vt::Trace& tr) {
    vt::Rng& r = tr.rng;
    auto pool = paimon::GetDefaultPool();
    int n = r.In(1, 3), nr = r.In(1, 6);
    std::vector<Dom> doms;
    std::vector<int> ids;
    arrow::FieldVector fs;
    std::vector<std::string> names;
    for (int i = 0; i < n; i++) {
        doms.push_back(r.Chance(7) ? vals::Bool() : r.Pick(vals::Ordered()));
        ids.push_back(i + 1);
        names.push_back("c" + std::to_string(i));
        fs.push_back(arrow::field(names[i], doms[i]->type));
    }
    auto schema = arrow::schema(fs);
    std::vector<std::vector<Val>> rows;
    int nulls = r.Pick<int>({0, 20, 60});
    for (int i = 0; i < nr; i++) {
        std::vector<Val> row;
        for (int c = 0; c < n; c++) row.push_back(r.Chance(nulls) ? Val{} : Val{static_cast<int>(r.Below(doms[c]->Size()))});
        rows.push_back(row);
    }
    std::vector<std::string> types;
    for (auto& d : doms) types.push_back(d->name);
    tr.Init(J().k("rows", rows).k("types", types));
    auto columns = Columns(doms, rows);
    auto batch = arrow::StructArray::Make(columns, names).ValueOrDie();
    int steps = r.In(2, 8);
    for (int s = 0; s < steps && tr.last_ok; s++) {
        Pred p = preds::Make(r, ids, r.Below(4), [&](int f) { return doms[f - 1]->Size(); });
        auto made = preds::Build(p, [&](int f) { return preds::Field{f - 1, names[f - 1], doms[f - 1].get()}; });
        auto filter = std::dynamic_pointer_cast<PredicateFilter>(made);
        int what = r.Below(5);
        if (what == 0) {
            tr.Op("rows", J().raw("pred", p.Json()), [&]() -> vt::Out {
                std::vector<bool> got;
                for (int i = 0; i < nr; i++) {
                    auto x = filter->Test(schema, RowOf(doms, rows[i], pool.get()));
                    if (!x.ok()) return vt::Out::Err();
                    got.push_back(x.value());
                }
                return vt::Out(J().k("got", got));
            });
        } else if (what == 1) {
            tr.Op("batch", J().raw("pred", p.Json()), [&]() -> vt::Out {
                auto x = filter->Test(*batch);
                if (!x.ok() || x.value().size() != static_cast<size_t>(nr)) return vt::Out::Err();
                return vt::Out(J().k("got", std::vector<bool>(x.value().begin(), x.value().end())));
            });
        } else if (what < 4) {
            // statistics of a stretch of the rows: exact, wider, or missing
            int from = r.Below(nr), to = r.In(from, nr - 1);
            std::vector<int> of;
            for (int i = from; i <= to; i++) of.push_back(i + 1);
            std::vector<std::vector<Val>> ends(2);
            std::vector<int> count;
            for (int c = 0; c < n; c++) {
                int lo = 99, hi = -1, k = 0;
                for (int i = from; i <= to; i++) {
                    if (rows[i][c].empty()) k++;
                    else lo = std::min(lo, rows[i][c][0]), hi = std::max(hi, rows[i][c][0]);
                }
                if (hi >= 0 && r.Chance(20)) lo = r.In(0, lo), hi = r.In(hi, doms[c]->Size() - 1);
                bool unknown = r.Chance(10);
                ends[0].push_back(hi < 0 || unknown ? Val{} : Val{lo});
                ends[1].push_back(hi < 0 || (unknown && r.Chance(70)) ? Val{} : Val{hi});
                count.push_back(r.Chance(10) ? -1 : k);
            }
            tr.Op("stats", J().raw("pred", p.Json()).k("of", of).k("ends", ends).k("nulls", count), [&]() -> vt::Out {
                paimon::BinaryArray counts;
                paimon::BinaryArrayWriter w(&counts, n, 8, pool.get());
                for (int c = 0; c < n; c++) {
                    if (count[c] < 0) w.SetNullValue<int64_t>(c);
                    else w.WriteLong(c, count[c]);
                }
                w.Complete();
                auto x = filter->Test(schema, to - from + 1, RowOf(doms, ends[0], pool.get()), RowOf(doms, ends[1], pool.get()), counts);
                return x.ok() ? vt::Out(J().k("got", x.value())) : vt::Out::Err();
            });
        } else {
            // keep or leave out some fields
            bool keep = r.Chance(50);
            std::vector<int> sel;
            for (int c = n - 1; c >= 0; c--)
                if (r.Chance(50)) sel.push_back(c);
            tr.Op("part", J().raw("pred", p.Json()).k("keep", keep).k("fields", sel), [&]() -> vt::Out {
                std::shared_ptr<paimon::Predicate> q;
                std::vector<int> cols;
                for (int c = 0; c < n; c++) cols.push_back(c);
                arrow::FieldVector f = fs;
                if (keep) {
                    std::map<std::string, int32_t> at;
                    cols.clear();
                    f.clear();
                    for (int c : sel) at[names[c]] = static_cast<int>(cols.size()), cols.push_back(c), f.push_back(fs[c]);
                    auto x = paimon::PredicateUtils::CreatePickedFieldFilter(made, at);
                    if (!x.ok()) return vt::Out::Err();
                    q = x.value();
                } else {
                    std::set<std::string> out;
                    for (int c : sel) out.insert(names[c]);
                    auto x = paimon::PredicateUtils::ExcludePredicateWithFields(made, out);
                    if (!x.ok()) return vt::Out::Err();
                    q = x.value();
                    if (q)
                        for (auto& name : out) {
                            auto has = paimon::PredicateUtils::ContainAnyField(q, {name});
                            if (!has.ok() || has.value()) return vt::Out::Err();
                        }
                }
                std::vector<bool> got;
                for (int i = 0; i < nr; i++) {
                    if (!q) {
                        got.push_back(true);
                        continue;
                    }
                    std::vector<Dom> ds;
                    std::vector<Val> vs;
                    for (int c : cols) ds.push_back(doms[c]), vs.push_back(rows[i][c]);
                    auto x = std::dynamic_pointer_cast<PredicateFilter>(q)->Test(arrow::schema(f), RowOf(ds, vs, pool.get()));
                    if (!x.ok()) return vt::Out::Err();
                    got.push_back(x.value());
                }
                return vt::Out(J().k("got", got));
            });
        }
    }
}
}  // namespace

int main(int argc, char** argv) { return vt::Run(argc, argv, Gen); }
