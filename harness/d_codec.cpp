// C26: delta-varint lists, deletion-file lists and blob descriptors.  A 64-bit integer is reported
// as its four 16-bit chunks, lowest first; texts and encodings as byte lists.
#include "paimon/common/data/blob_descriptor.h"
#include "paimon/common/io/memory_segment_output_stream.h"
#include "paimon/common/memory/memory_segment_utils.h"
#include "paimon/common/utils/delta_varint_compressor.h"
#include "paimon/core/table/source/deletion_file.h"
#include "paimon/io/byte_array_input_stream.h"
#include "paimon/io/data_input_stream.h"
#include "vtrace.h"

using namespace paimon;  // NOLINT
using vt::BytesOf;
using vt::J;
using vt::Out;

static std::vector<int> Chunks(int64_t v) {
    uint64_t u = static_cast<uint64_t>(v);
    return {int(u & 0xffff), int((u >> 16) & 0xffff), int((u >> 32) & 0xffff), int(u >> 48)};
}
static std::vector<std::vector<int>> ChunksAll(const std::vector<int64_t>& v) {
    std::vector<std::vector<int>> o;
    for (auto x : v) o.push_back(Chunks(x));
    return o;
}
static int64_t AnyInt(vt::Rng& r) {
    switch (r.Below(8)) {
        case 0: return r.In(-70, 70);
        case 1: return r.In(-300, 300);
        case 2: return static_cast<int64_t>(r.Next());
        case 3: return r.Chance(50) ? INT64_MAX - r.Below(3) : INT64_MIN + r.Below(3);
        case 4: {  // around the borders of the 7-bit groups
            int64_t p = int64_t(1) << (7 * r.In(1, 8) - 1);
            return (r.Chance(50) ? p : -p) + r.In(-2, 2);
        }
        case 5: return int64_t(r.Next() >> r.Below(63)) * (r.Chance(50) ? 1 : -1);
        case 6: return (int64_t(1) << r.Below(63)) - r.Below(2);
        default: return r.Below(100000);
    }
}
static std::string AnyText(vt::Rng& r) {
    std::string s;
    int n = r.Chance(10) ? 0 : r.In(1, r.Chance(5) ? 300 : 12);
    for (int i = 0; i < n; i++) s += static_cast<char>(r.Chance(80) ? r.In('a', 'z') : r.Below(256));
    return s;
}
static void Mutate(vt::Rng& r, std::string* b) {
    int kind = r.Below(6);
    if (kind == 0) {
        b->resize(r.Below(b->size() + 1));
    } else if (kind == 1 && !b->empty()) {
        (*b)[r.Below(b->size())] = static_cast<char>(r.Below(256));
    } else if (kind == 2 && !b->empty()) {
        (*b)[r.Below(b->size())] ^= static_cast<char>(1 << r.Below(8));
    } else if (kind == 3) {
        b->insert(r.Below(b->size() + 1), 1, static_cast<char>(r.Below(256)));
    } else if (kind == 4 && !b->empty()) {
        b->erase(r.Below(b->size()), 1);
    } else if (!b->empty()) {  // a length field becomes extreme
        size_t p = r.Below(std::min<size_t>(b->size(), 6));
        for (size_t k = p; k < std::min(p + 4, b->size()); k++)
            (*b)[k] = static_cast<char>(r.Chance(50) ? 0xff : 0x7f);
    }
}

static J FileJ(const std::optional<DeletionFile>& f) {
    if (!f) return J().k("h", 0);
    return J().k("h", 1).k("p", BytesOf(f->path)).k("off", Chunks(f->offset)).k("len", Chunks(f->length))
        .k("card", f->cardinality ? Chunks(*f->cardinality) : Chunks(-1));
}
static std::vector<J> FilesJ(const std::vector<std::optional<DeletionFile>>& v) {
    std::vector<J> o;
    for (auto& f : v) o.push_back(FileJ(f));
    return o;
}
// exact-size heap copies, so that the sanitizer sees every stray access
struct Exact {
    explicit Exact(const std::string& s) : p(new char[s.size() ? s.size() : 1]), n(s.size()) { memcpy(p, s.data(), n); }
    ~Exact() { delete[] p; }
    char* p;
    size_t n;
};

static void Gen(vt::Trace& t) {
    auto& r = t.rng;
    std::shared_ptr<MemoryPool> pool = GetMemoryPool();
    t.Init(J().k("z", 0));
    for (int step = 0; step < 6; step++) {
        switch (r.Below(3)) {
            case 0: {
                std::vector<int64_t> v;
                int n = r.Below(9);
                for (int i = 0; i < n; i++)
                    v.push_back(!v.empty() && r.Chance(50) ? int64_t(uint64_t(v.back()) + r.Below(200)) : AnyInt(r));
                std::string enc;
                t.Op("venc", J().k("v", ChunksAll(v)), [&] {
                    auto b = DeltaVarintCompressor::Compress(v);
                    enc.assign(b.begin(), b.end());
                    return Out(J().k("b", BytesOf(enc)));
                });
                for (int m = 0; m < 4; m++) {
                    std::string b = enc;
                    if (m > 0) Mutate(r, &b);
                    if (m == 3 && r.Chance(30)) b += std::string(r.In(8, 12), '\xff') + std::string(1, char(r.Below(128)));
                    t.Op("vdec", J().k("b", BytesOf(b)), [&]() -> Out {
                        auto res = DeltaVarintCompressor::Decompress(std::vector<char>(b.begin(), b.end()));
                        if (!res.ok()) return Out::Err();
                        return J().k("v", ChunksAll(res.value()));
                    });
                }
                break;
            }
            case 1: {
                std::vector<std::optional<DeletionFile>> v;
                int n = r.Below(5);
                for (int i = 0; i < n; i++) {
                    if (r.Chance(25)) v.push_back(std::nullopt);
                    else v.push_back(DeletionFile(AnyText(r), AnyInt(r), AnyInt(r), r.Chance(40) ? std::nullopt : std::optional<int64_t>(r.Chance(30) ? 0 : AnyInt(r))));
                }
                std::string enc;
                int seg = r.Pick(std::vector<int>{1, 3, 8, 16, 33, 64, 1024});
                t.Op("denc", J().k("f", FilesJ(v)).k("seg", seg), [&] {
                    MemorySegmentOutputStream out(seg, pool);
                    DeletionFile::SerializeList(v, &out);
                    auto b = MemorySegmentUtils::CopyToBytes(out.Segments(), 0, out.CurrentSize(), pool.get());
                    enc.assign(b->data(), b->size());
                    return Out(J().k("b", BytesOf(enc)));
                });
                for (int m = 0; m < 5; m++) {
                    std::string b = enc;
                    if (m > 0) Mutate(r, &b);
                    int version = m == 0 ? 4 + r.Below(4) : r.Chance(70) ? r.In(3, 5) : r.In(-1, 9);
                    t.Op("ddec", J().k("b", BytesOf(b)).k("ver", version), [&]() -> Out {
                        Exact e(b);
                        DataInputStream in(std::make_shared<ByteArrayInputStream>(e.p, e.n));
                        auto res = DeletionFile::DeserializeList(&in, version);
                        if (!res.ok()) return Out::Err();
                        return J().k("f", FilesJ(res.value())).k("pos", in.GetPos().value());
                    });
                }
                break;
            }
            default: {
                std::string uri = AnyText(r);
                int64_t off = r.Chance(80) ? std::abs(AnyInt(r)) : AnyInt(r);
                if (off == INT64_MIN) off = 0;
                int64_t len = r.Chance(20) ? -1 : r.Chance(80) ? std::abs(AnyInt(r) / 2) : AnyInt(r);
                std::unique_ptr<BlobDescriptor> d;
                t.Op("bnew", J().k("u", BytesOf(uri)).k("off", Chunks(off)).k("len", Chunks(len)), [&]() -> Out {
                    auto res = BlobDescriptor::Create(uri, off, len);
                    if (!res.ok()) return Out::Err();
                    d = std::move(res).value();
                    return J().k("u2", BytesOf(d->Uri())).k("off2", Chunks(d->Offset())).k("len2", Chunks(d->Length()));
                });
                std::string enc;
                if (d) {
                    t.Op("benc", J().k("u", BytesOf(uri)).k("off", Chunks(off)).k("len", Chunks(len)), [&] {
                        auto b = d->Serialize(pool);
                        enc.assign(b->data(), b->size());
                        return Out(J().k("b", BytesOf(enc)));
                    });
                }
                for (int m = 0; m < 5; m++) {
                    std::string b = enc;
                    if (m > 0) Mutate(r, &b);
                    t.Op("bdec", J().k("b", BytesOf(b)), [&]() -> Out {
                        Exact e(b);
                        auto res = BlobDescriptor::Deserialize(e.p, e.n);
                        if (!res.ok()) return Out::Err();
                        auto& x = *res.value();
                        return J().k("u", BytesOf(x.Uri())).k("off", Chunks(x.Offset())).k("len", Chunks(x.Length()));
                    });
                }
            }
        }
    }
}

int main(int argc, char** argv) { return vt::Run(argc, argv, Gen); }
