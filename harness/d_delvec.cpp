// Deletion vectors as sets of positions: deletions, membership, saving and loading.
#include "paimon/core/deletionvectors/bitmap_deletion_vector.h"
#include "paimon/core/table/source/deletion_file.h"
#include "paimon/fs/file_system_factory.h"
#include "tbl.h"
#include "vclock.h"
#include "vtrace.h"

namespace {
using paimon::BitmapDeletionVector;
using paimon::DeletionVector;
using vt::J;
using memfs::FsFactory;
REGISTER_PAIMON_FACTORY(FsFactory);

std::vector<int64_t> Points(vt::Rng& r) {
    static const std::vector<int64_t> all = {0, 1, 2, 63, 64, 100, 4095, 4096, 65535, 65536, 65537, 131072, 1000000, 2147483646, 2147483647};
    std::vector<int64_t> v;
    for (int i = 0, n = r.In(1, 6); i < n; i++) v.push_back(r.Pick(all));
    for (int i = 0; i < 4; i++) v.push_back(r.Below(12));
    return v;
}
void Gen(vt::Trace& tr) {
    memfs::W().Reset();
    memfs::W().shuffle = nullptr;
    memfs::W().now_ms = [] { return vclock::NowMs(); };
    vt::Rng& r = tr.rng;
    auto pool = paimon::GetDefaultPool();
    auto fs = paimon::FileSystemFactory::Get("mem", "/w", {{"file-system", "mem"}});
    if (!fs.ok()) {
        fprintf(stderr, "driver error: %s\n", fs.status().ToString().c_str());
        _exit(97);
    }
    std::shared_ptr<DeletionVector> dv = std::make_shared<BitmapDeletionVector>(paimon::RoaringBitmap32());
    tr.Init(J());
    auto points = Points(r);
    int n = r.In(5, 25), made = 0;
    for (int i = 0; i < n && tr.last_ok; i++) {
        bool big = r.Chance(5);
        int64_t p = big ? r.Pick<int64_t>({2147483648LL, 4294967296LL, 4294967297LL, 1LL << 40}) : r.Pick(points);
        int shown = big ? 0 : static_cast<int>(p);
        int what = r.Below(12);
        if (what < 3) {
            tr.Op("delete", J().k("p", shown).k("big", big), [&]() -> vt::Out { return vt::Out::Of(dv->Delete(p)); });
        } else if (what < 5) {
            tr.Op("checked", J().k("p", shown).k("big", big), [&]() -> vt::Out {
                auto x = dv->CheckedDelete(p);
                return x.ok() ? vt::Out(J().k("new", x.value())) : vt::Out::Err();
            });
        } else if (what == 5) {
            tr.Op("has", J().k("p", shown).k("big", big), [&]() -> vt::Out {
                auto x = dv->IsDeleted(p);
                return x.ok() ? vt::Out(J().k("is", x.value())) : vt::Out::Err();
            });
        } else if (what == 6) {
            tr.Op("empty", J(), [&]() -> vt::Out { return vt::Out(J().k("is", dv->IsEmpty())); });
        } else if (what == 7) {
            int64_t first = std::max<int64_t>(0, r.Pick(points) - r.In(0, 5));
            int len = static_cast<int>(std::min<int64_t>(r.In(0, 40), 2147483647 - first));
            tr.Op("valid", J().k("first", first).k("n", len), [&]() -> vt::Out {
                auto x = dv->IsValid(first, len);
                if (!x.ok()) return vt::Out::Err();
                std::vector<int> rows;
                for (auto it = x.value().Begin(); it != x.value().End(); ++it) rows.push_back(*it);
                return vt::Out(J().k("rows", rows));
            });
        } else if (what == 8 && r.Chance(30)) {
            std::vector<int> flags;
            std::vector<char> f;
            for (int j = 0, m = r.In(0, 20); j < m; j++) flags.push_back(r.Below(2)), f.push_back(static_cast<char>(flags.back()));
            tr.Op("flags", J().k("flags", flags), [&]() -> vt::Out {
                dv = DeletionVector::FromPrimitiveArray(f, pool.get());
                return vt::Out(J());
            });
        } else {
            // 0 bytes, 1 file; spoiled: 2 magic, 3 cut bytes, 4 other length, 5 cut file, 6 no file
            int way = r.Below(8);
            if (way == 7) way = r.Below(2);
            std::string path = "/w/dv-" + std::to_string(made++);
            int64_t cut = r.Next() % 100, front = r.In(0, 30);
            tr.Op(way < 2 ? "saved" : "spoiled", J().k("way", way), [&]() -> vt::Out {
                auto b = dv->SerializeToBytes(pool);
                if (!b.ok()) return vt::Out::Err();
                std::string text(b.value()->data(), b.value()->size());
                if (way == 2) text[cut % 4] ^= static_cast<char>(1 << (cut % 7));
                if (way == 3) text.resize(1 + (text.size() - 1) * cut / 100);
                std::shared_ptr<DeletionVector> got;
                if (way == 0 || way == 3 || (way == 2 && cut % 2)) {
                    paimon::Bytes bytes(text, pool.get());
                    auto x = DeletionVector::DeserializeFromBytes(&bytes, pool.get());
                    if (!x.ok()) return vt::Out::Err();
                    got = std::move(x).value();
                } else {
                    int32_t len = text.size();
                    std::string file(front, 'f');
                    for (int s = 24; s >= 0; s -= 8) file.push_back(static_cast<char>(len >> s));
                    file += text;
                    if (way == 5) file.resize(front + (len + 4) * cut / 100);
                    else file += std::string(cut % 9, 't');
                    if (way != 6 && !fs.value()->WriteFile(path, file, true).ok()) _exit(97);
                    int64_t told = len;
                    if (way == 4) told += (cut % 2 ? 1 : -1) * (1 + cut % 5);
                    paimon::DeletionFile d(path, front, told, std::nullopt);
                    auto x = DeletionVector::Read(fs.value().get(), d, pool.get());
                    if (!x.ok()) return vt::Out::Err();
                    got = std::move(x).value();
                }
                std::vector<int> now;
                auto* bits = static_cast<BitmapDeletionVector*>(got.get())->GetBitmap();
                for (auto it = bits->Begin(); it != bits->End(); ++it) now.push_back(*it);
                // the loaded vector goes on
                dv = got;
                return vt::Out(J().k("now", now));
            });
            if (way >= 2) tr.last_ok = true;
        }
    }
    memfs::W().Reset();
}
}  // namespace

int main(int argc, char** argv) { return vt::Run(argc, argv, Gen); }
