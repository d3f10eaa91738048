// Predicates over numbered fields, as trees of the specification and as predicates of the library.
#pragma once
#include <functional>

#include "paimon/data/decimal.h"
#include "paimon/data/timestamp.h"
#include "paimon/predicate/literal.h"
#include "paimon/predicate/predicate_builder.h"
#include "vals.h"
#include "vtrace.h"

namespace preds {
using paimon::FieldType;
using paimon::Literal;
using paimon::Predicate;
using paimon::PredicateBuilder;
using vals::Domain;
using vt::J;
using Val = std::vector<int>;  // empty: null

inline FieldType TypeOf(const arrow::DataType& t) {
    using T = arrow::Type;
    switch (t.id()) {
        case T::BOOL: return FieldType::BOOLEAN;
        case T::INT8: return FieldType::TINYINT;
        case T::INT16: return FieldType::SMALLINT;
        case T::INT32: return FieldType::INT;
        case T::INT64: return FieldType::BIGINT;
        case T::FLOAT: return FieldType::FLOAT;
        case T::DOUBLE: return FieldType::DOUBLE;
        case T::STRING: return FieldType::STRING;
        case T::BINARY: return FieldType::BINARY;
        case T::DATE32: return FieldType::DATE;
        case T::DECIMAL128: return FieldType::DECIMAL;
        default: return FieldType::TIMESTAMP;
    }
}
inline Literal LitOf(const Domain& d, int n) {
    using T = arrow::Type;
    const arrow::Array& a = *d.arr;
    int64_t i = d.zero + n;
    switch (a.type_id()) {
        case T::BOOL: return Literal(static_cast<const arrow::BooleanArray&>(a).Value(i));
        case T::INT8: return Literal(static_cast<const arrow::Int8Array&>(a).Value(i));
        case T::INT16: return Literal(static_cast<const arrow::Int16Array&>(a).Value(i));
        case T::INT32: return Literal(static_cast<const arrow::Int32Array&>(a).Value(i));
        case T::INT64: return Literal(static_cast<int64_t>(static_cast<const arrow::Int64Array&>(a).Value(i)));
        case T::FLOAT: return Literal(static_cast<const arrow::FloatArray&>(a).Value(i));
        case T::DOUBLE: return Literal(static_cast<const arrow::DoubleArray&>(a).Value(i));
        case T::STRING: {
            auto s = static_cast<const arrow::StringArray&>(a).GetString(i);
            return Literal(FieldType::STRING, s.data(), s.size());
        }
        case T::BINARY: {
            auto s = static_cast<const arrow::BinaryArray&>(a).GetString(i);
            return Literal(FieldType::BINARY, s.data(), s.size());
        }
        case T::DATE32: return Literal(FieldType::DATE, static_cast<const arrow::Date32Array&>(a).Value(i));
        case T::DECIMAL128: {
            auto& t = static_cast<const arrow::Decimal128Type&>(*a.type());
            arrow::Decimal128 v(static_cast<const arrow::Decimal128Array&>(a).GetValue(i));
            return Literal(paimon::Decimal(t.precision(), t.scale(), static_cast<paimon::Decimal::int128_t>((static_cast<unsigned __int128>(v.high_bits()) << 64) | v.low_bits())));
        }
        default: {
            int64_t v = static_cast<const arrow::TimestampArray&>(a).Value(i), per = 1;
            for (int k = 0; k < static_cast<int>(static_cast<const arrow::TimestampType&>(*a.type()).unit()); k++) per *= 1000;
            int64_t sec = v / per, rest = v % per;
            if (rest < 0) sec--, rest += per;
            int64_t nanos = rest * (1000000000 / per);
            return Literal(paimon::Timestamp(sec * 1000 + nanos / 1000000, static_cast<int32_t>(nanos % 1000000)));
        }
    }
}

struct Pred {
    std::string t = "all", op;
    int f = 0;
    Val v;
    std::vector<Pred> c;
    std::string Json() const {
        std::string s = "[";
        for (auto& x : c) s += (s.size() > 1 ? "," : "") + x.Json();
        return J().k("t", t).k("f", f).k("op", op).k("v", v).raw("c", s + "]").str();
    }
    void Fields(std::set<int>* out) const {
        if (t == "leaf") out->insert(f);
        for (auto& x : c) x.Fields(out);
    }
};

// a random predicate over the fields; size: how many values of a field are used
inline Pred Make(vt::Rng& rng, const std::vector<int>& ids, int depth, const std::function<int(int)>& size_of) {
    Pred p;
    if (depth > 0 && rng.Chance(60)) {
        int what = rng.Below(5);
        p.t = what < 2 ? "and" : what < 4 ? "or" : "not";
        int n = p.t == "not" ? 1 : rng.In(1, 3);
        for (int i = 0; i < n; i++) p.c.push_back(Make(rng, ids, depth - 1, size_of));
        return p;
    }
    static const std::vector<std::string> ops = {"eq", "ne", "lt", "le", "gt", "ge", "in", "notin", "between", "isnull", "notnull"};
    p.t = "leaf";
    p.f = rng.Pick(ids);
    p.op = rng.Pick(ops);
    int size = size_of(p.f), n = p.op == "in" || p.op == "notin" ? rng.In(1, 3) : p.op == "between" ? 2 : p.op.find("null") != std::string::npos ? 0 : 1;
    for (int i = 0; i < n; i++) p.v.push_back(rng.Below(size));
    return p;
}
struct Field {
    int index;
    std::string name;
    const Domain* dom;
};
inline std::shared_ptr<Predicate> Build(const Pred& p, const std::function<Field(int)>& field) {
    if (p.t == "all") return nullptr;
    if (p.t == "not") return Build(p.c[0], field)->Negate();
    if (p.t != "leaf") {
        std::vector<std::shared_ptr<Predicate>> cs;
        for (auto& x : p.c) cs.push_back(Build(x, field));
        auto r = p.t == "and" ? PredicateBuilder::And(cs) : PredicateBuilder::Or(cs);
        if (!r.ok()) {
            fprintf(stderr, "driver error: %s\n", r.status().ToString().c_str());
            _exit(97);
        }
        return r.value();
    }
    Field c = field(p.f);
    int i = c.index;
    FieldType ft = TypeOf(*c.dom->type);
    std::vector<Literal> v;
    for (int n : p.v) v.push_back(LitOf(*c.dom, n));
    using B = PredicateBuilder;
    if (p.op == "eq") return B::Equal(i, c.name, ft, v[0]);
    if (p.op == "ne") return B::NotEqual(i, c.name, ft, v[0]);
    if (p.op == "lt") return B::LessThan(i, c.name, ft, v[0]);
    if (p.op == "le") return B::LessOrEqual(i, c.name, ft, v[0]);
    if (p.op == "gt") return B::GreaterThan(i, c.name, ft, v[0]);
    if (p.op == "ge") return B::GreaterOrEqual(i, c.name, ft, v[0]);
    if (p.op == "in") return B::In(i, c.name, ft, v);
    if (p.op == "notin") return B::NotIn(i, c.name, ft, v);
    if (p.op == "between") return B::Between(i, c.name, ft, v[0], v[1]);
    if (p.op == "isnull") return B::IsNull(i, c.name, ft);
    return B::IsNotNull(i, c.name, ft);
}
}  // namespace preds
