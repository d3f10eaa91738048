// Values of columns: small numbers stand for typed values in the same order.
#pragma once
#include <memory>
#include <string>
#include <vector>

#include "arrow/api.h"
#include "arrow/ipc/json_simple.h"
#include "vtrace.h"

namespace vals {
// a type and a list of its values, smallest first, as JSON literals
struct Domain {
    std::string name;
    std::shared_ptr<arrow::DataType> type;
    std::vector<std::string> lit;
    int zero = 0;  // lit[zero + n] stands for n
    std::shared_ptr<arrow::Array> arr;

    int Size() const { return static_cast<int>(lit.size()); }
    const std::string& Lit(int n) const { return lit[zero + n]; }
    // the number of a value; far outside if it is none of the list
    int Code(const arrow::Array& a, int64_t i) const {
        if (a.type_id() == arrow::Type::DICTIONARY) {
            auto& d = static_cast<const arrow::DictionaryArray&>(a);
            return Code(*d.dictionary(), d.GetValueIndex(i));
        }
        for (int k = 0; k < Size(); k++)
            if (a.RangeEquals(*arr, i, i + 1, k)) return k - zero;
        return 999999;
    }
};
inline std::shared_ptr<Domain> Make(const std::string& name, const std::shared_ptr<arrow::DataType>& t,
                                    const std::vector<std::string>& lit, int zero = 0) {
    auto d = std::make_shared<Domain>(Domain{name, t, lit, zero, nullptr});
    std::string all = "[";
    for (auto& l : lit) all += (all.size() > 1 ? "," : "") + l;
    auto made = arrow::ipc::internal::json::ArrayFromJSON(t, all + "]");
    if (!made.ok()) {
        fprintf(stderr, "driver error: %s: %s\n", name.c_str(), made.status().ToString().c_str());
        _exit(97);
    }
    d->arr = made.ValueOrDie();
    return d;
}
// values in order, for comparing; six of each type
inline const std::vector<std::shared_ptr<Domain>>& Ordered() {
    static const std::vector<std::shared_ptr<Domain>> all = [] {
        std::string lo(100, 'a'), hi(100, 'z');
        std::vector<std::string> texts = {"\"\"", "\"" + lo + "\"", "\"ab\"", "\"b\"", "\"" + hi + "\"", "\"é中\""};
        return std::vector<std::shared_ptr<Domain>>{
            Make("tinyint", arrow::int8(), {"-128", "-1", "0", "1", "100", "127"}),
            Make("smallint", arrow::int16(), {"-32768", "-1", "0", "1", "256", "32767"}),
            Make("int", arrow::int32(), {"-2147483648", "-1", "0", "1", "65536", "2147483647"}),
            Make("bigint", arrow::int64(), {"-9223372036854775808", "-1", "0", "1", "4294967296", "9223372036854775807"}),
            Make("float", arrow::float32(), {"-1e30", "-0.5", "0", "0.25", "3", "1e30"}),
            Make("double", arrow::float64(), {"-1e300", "-0.5", "0", "0.25", "3", "1e300"}),
            Make("string", arrow::utf8(), texts),
            Make("binary", arrow::binary(), texts),
            Make("date", arrow::date32(), {"-719162", "-1", "0", "1", "19000", "2932896"}),
            Make("ts0", arrow::timestamp(arrow::TimeUnit::SECOND), {"-86400000", "-1", "0", "1", "1000000000", "4000000000"}),
            Make("ts3", arrow::timestamp(arrow::TimeUnit::MILLI), {"-86400000123", "-1", "0", "1", "1000000000", "4000000000007"}),
            Make("ts6", arrow::timestamp(arrow::TimeUnit::MICRO), {"-86400000123456", "-1", "0", "1", "1000000000", "4000000000007008"}),
            Make("ts9", arrow::timestamp(arrow::TimeUnit::NANO), {"-864000000123456", "-1", "0", "1", "1000000000", "4000000000007008"}),
            Make("dec5", arrow::decimal128(5, 2), {"\"-999.99\"", "\"-0.01\"", "\"0.00\"", "\"0.01\"", "\"1.00\"", "\"999.99\""}),
            Make("dec38", arrow::decimal128(38, 3),
                 {"\"-99999999999999999999999999999999999.999\"", "\"-0.001\"", "\"0.000\"", "\"0.001\"", "\"18446744073709551616.000\"",
                  "\"99999999999999999999999999999999999.999\""}),
        };
    }();
    return all;
}
// for sums: the number itself, or a fixed multiple of it
inline const std::vector<std::shared_ptr<Domain>>& Additive() {
    static const std::vector<std::shared_ptr<Domain>> all = [] {
        auto line = [](auto f) {
            std::vector<std::string> v;
            for (int i = -60; i <= 60; i++) v.push_back(f(i));
            return v;
        };
        auto num = [](int i) { return std::to_string(i); };
        return std::vector<std::shared_ptr<Domain>>{
            Make("tinyint", arrow::int8(), line(num), 60),
            Make("smallint", arrow::int16(), line([](int i) { return std::to_string(i * 500); }), 60),
            Make("int", arrow::int32(), line([](int i) { return std::to_string(i * 30000000); }), 60),
            Make("bigint", arrow::int64(), line([](int i) { return std::to_string(i * 100000000000000000ll); }), 60),
            Make("float", arrow::float32(), line([](int i) { return std::to_string(i * 0.5); }), 60),
            Make("double", arrow::float64(), line([](int i) { return std::to_string(i * 0.5); }), 60),
            Make("dec", arrow::decimal128(20, 2), line([](int i) { return "\"" + std::to_string(i) + ".00\""; }), 60),
        };
    }();
    return all;
}
inline std::shared_ptr<Domain> Bool() {
    static auto d = Make("boolean", arrow::boolean(), {"false", "true"});
    return d;
}
}  // namespace vals
