// C23: Bloom filters; hashes are given to the specification as four 16-bit chunks.
#include "paimon/common/utils/bloom_filter64.h"
#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"
#include "vtrace.h"

using paimon::BloomFilter64;
using paimon::Bytes;
using vt::J;
using vt::Out;

static std::vector<int> Chunks(int64_t h) {
    uint64_t u = h;
    return {static_cast<int>(u & 0xffff), static_cast<int>((u >> 16) & 0xffff),
            static_cast<int>((u >> 32) & 0xffff), static_cast<int>(u >> 48)};
}

static void Gen(vt::Trace& t) {
    auto& r = t.rng;
    auto pool = paimon::GetDefaultPool();
    std::unique_ptr<BloomFilter64> f;
    t.Init(J().k("z", 0));
    std::vector<int64_t> items = {1, 2, 3, 5, 8, 20, 100, 1000, 20000};
    std::vector<double> fpps = {0.5, 0.9, 0.1, 0.03, 0.01, 0.001, 0.000001};
    int64_t it = r.Pick(items);
    double fpp = r.Pick(fpps);
    int nbits = 0, k = 0;
    t.Op("new", J().k("items", it), [&] {
        f = std::make_unique<BloomFilter64>(it, fpp, pool);
        nbits = f->GetBitSet().BitSize();
        k = f->GetNumHashFunctions();
        return Out(J().k("nbits", nbits).k("k", k).k("kept", f->num_bits_));
    });
    if (!f) return;
    std::vector<int64_t> hs;
    auto hash = [&]() -> int64_t {
        switch (r.Below(8)) {
            case 0: return static_cast<int64_t>(r.Below(4));
            case 1: return -static_cast<int64_t>(r.Below(4)) - 1;
            case 2: return INT64_MIN + r.Below(3);
            case 3: return INT64_MAX - r.Below(3);
            case 4: return static_cast<int64_t>(r.Next() & 0xffffffffull);            // no second hash
            case 5: return static_cast<int64_t>(r.Next() & 0xffffffff00000000ull);    // no first hash
            default: return static_cast<int64_t>(r.Next());
        }
    };
    int n = r.In(6, 40);
    for (int s = 0; s < n; s++) {
        int64_t h = (!hs.empty() && r.Chance(35)) ? r.Pick(hs) : hash();
        switch (r.Below(8)) {
            case 0: case 1: case 2:
                hs.push_back(h);
                t.Op("add", J().k("h", Chunks(h)), [&] { f->AddHash(h); return Out(); });
                break;
            case 3: case 4: case 5:
                t.Op("test", J().k("h", Chunks(h)), [&] { return Out(J().k("r", f->TestHash(h))); });
                break;
            case 6:
                if (nbits <= 600)
                    t.Op("bits", J(), [&] {
                        std::vector<int> b;
                        for (int i = 0; i < nbits; i++)
                            if (f->GetBitSet().Get(i)) b.push_back(i);
                        return Out(J().k("b", b));
                    });
                break;
            case 7: {
                // store the bits behind a prefix, load the filter from there
                int off = r.Below(20);
                t.Op("reload", J().k("off", off), [&] {
                    auto bytes = std::make_shared<Bytes>(off + nbits / 8, pool.get());
                    for (int i = 0; i < off; i++) bytes->data()[i] = static_cast<char>(0xA5);
                    const auto& bs = f->GetBitSet();
                    memcpy(bytes->data() + off, bs.bytes_->data() + bs.offset_, nbits / 8);
                    auto g = std::make_unique<BloomFilter64>(k, std::make_unique<BloomFilter64::BitSet>(bytes, off));
                    f = std::move(g);
                    bool intact = true;
                    f->AddHash(12345);
                    hs.push_back(12345);
                    for (int i = 0; i < off; i++) intact &= bytes->data()[i] == static_cast<char>(0xA5);
                    return Out(J().k("nbits", f->GetBitSet().BitSize()).k("k", f->GetNumHashFunctions())
                                   .k("h", Chunks(12345)).k("intact", intact));
                });
                break;
            }
        }
    }
    for (int64_t h : hs) t.Op("test", J().k("h", Chunks(h)), [&] { return Out(J().k("r", f->TestHash(h))); });
}

int main(int argc, char** argv) { return vt::Run(argc, argv, Gen); }
