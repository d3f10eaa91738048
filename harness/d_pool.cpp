// C33: memory pool, by one thread with checks of the memory itself and by several threads.
#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"
#include "vtrace.h"
#include "vsched_trace.h"

using namespace paimon;  // NOLINT
using vt::J;
using vt::Out;

struct Block {
    char* p = nullptr;
    int64_t size = -1;
    int kind = 0;  // 0 raw, 1 Bytes on the stack, 2 Bytes on the pool
    int tag = 0;
    std::unique_ptr<Bytes> own;
    PAIMON_UNIQUE_PTR<Bytes> pooled;
};

static void Fill(Block& b) {
    for (int64_t k = 0; k < (b.p ? b.size : 0); k++) b.p[k] = static_cast<char>(b.tag * 31 + k * 7 + 1);
}
static bool Same(const Block& b, int64_t n) {
    for (int64_t k = 0; k < n; k++)
        if (b.p[k] != static_cast<char>(b.tag * 31 + k * 7 + 1)) return false;
    return true;
}

static void Single(vt::Trace& t) {
    auto& r = t.rng;
    const int slots = 6;
    t.Init(J().k("threads", 0).k("slots", slots));
    std::unique_ptr<MemoryPool> pool = GetMemoryPool();
    std::vector<Block> blocks(slots);
    int tag = 0;
    auto rest = [&](J j, int skip) {
        bool ok = true;
        for (int k = 0; k < slots; k++)
            if (k != skip && blocks[k].size > 0 && blocks[k].p) ok = ok && Same(blocks[k], blocks[k].kind == 2 ? blocks[k].pooled->size() : blocks[k].size);
        return j.k("intact", ok).k("cur", pool->CurrentUsage()).k("peak", pool->MaxMemoryUsage());
    };
    const std::vector<int64_t> sizes = {0, 1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 200, 1000, 4096, 5000, 100000};
    const std::vector<int> aligns = {0, 0, 8, 16, 32, 64, 128, 4096};
    int steps = r.In(8, 40);
    for (int s = 0; s < steps; s++) {
        int b = r.Below(slots);
        Block& x = blocks[b];
        int64_t size = r.Pick(sizes);
        int align = r.Pick(aligns);
        // the outcome is recorded by hand: the numbers are wanted after failures as well
        auto op = [&](const char* name, J args, const std::function<J()>& f) {
            J res;
            std::string o = "ok";
            t.Op(name, args, [&]() -> Out {
                try {
                    res = f();
                } catch (const std::exception&) {
                    Out e = Out::Err();
                    e.f = rest(J(), -1);
                    return e;
                }
                return res;
            });
        };
        if (x.size < 0) {
            int what = r.Below(5);
            if (what <= 2) {
                bool fails = r.Chance(8);
                bool re = what == 2;
                op(re ? "realloc" : "malloc", J().k("b", b + 1).k("size", fails ? 0 : size).k("align", align).k("fails", fails), [&] {
                    uint64_t n = fails ? (1ull << 60) : size;
                    if (re && fails && align == 0) n = 1ull << 62;
                    void* p = re ? pool->Realloc(nullptr, 0, n, align) : pool->Malloc(n, align);
                    if (fails) throw std::runtime_error("expected");
                    x.p = static_cast<char*>(p);
                    x.size = size;
                    x.kind = 0;
                    x.tag = ++tag;
                    uint64_t want = align ? align : re ? 16 : 64;
                    if (re && align == 0 && size == 0) want = 1;
                    bool al = reinterpret_cast<uintptr_t>(p) % want == 0 && (p != nullptr || size == 0);
                    Fill(x);
                    return rest(J().k("aligned", al).k("kept", true), -1);
                });
            } else {
                bool pooled = what == 4;
                bool from = r.Chance(50), fails = pooled && r.Chance(5);
                std::string text;
                x.tag = tag + 1;
                for (int64_t k = 0; k < size; k++) text += static_cast<char>(x.tag * 31 + k * 7 + 1);
                op("bytes", J().k("b", b + 1).k("size", pooled ? size + int64_t(sizeof(Bytes)) : size).k("fails", fails), [&] {
                    tag++;
                    if (fails) {  // the body cannot be allocated
                        auto none = pool->AllocateUnique<Bytes>(size_t(1ull << 60), pool.get());
                        throw std::runtime_error("?");
                    }
                    if (pooled) {
                        if (from) x.pooled = Bytes::AllocateBytes(text, pool.get());
                        else if (size % 2) {
                            Bytes src(0, nullptr);
                            x.pooled = Bytes::CopyOf(src, size, pool.get());
                        } else x.pooled = Bytes::AllocateBytes(size, pool.get());
                        x.p = x.pooled->data();
                        x.size = size;
                    } else {
                        x.own = from ? std::make_unique<Bytes>(text, pool.get()) : std::make_unique<Bytes>(size, pool.get());
                        x.p = x.own->data();
                        x.size = size;
                    }
                    x.kind = pooled ? 2 : 1;
                    bool content = true;
                    for (int64_t k = 0; k < size; k++) content = content && x.p[k] == (from ? text[k] : '\0');
                    Fill(x);
                    J j = rest(J(), -1);
                    return content ? j : J().k("intact", false).k("cur", 0).k("peak", 0);
                });
                if (!t.last_ok) { x.size = -1; x.p = nullptr; }
            }
        } else if (x.kind == 1 && r.Chance(40)) {
            int to = r.Below(slots);
            if (to == b || blocks[to].kind != 1 || blocks[to].size < 0) continue;
            op("move", J().k("b", b + 1).k("to", to + 1), [&] {
                Block& y = blocks[to];
                *y.own = std::move(*x.own);
                y.p = y.own->data();
                y.size = x.size;
                y.tag = x.tag;
                bool left = x.own->size() == 0 && x.own->data() == nullptr;
                x.p = nullptr;
                x.size = 0;
                J j = rest(J(), -1);
                return left ? j : J().k("intact", false).k("cur", 0).k("peak", 0);
            });
        } else if (x.kind == 0 && r.Chance(60)) {
            bool fails = r.Chance(5);
            op("realloc", J().k("b", b + 1).k("size", fails ? 0 : size).k("align", align).k("fails", fails), [&] {
                if (fails) {
                    pool->Realloc(x.p, x.size, 1ull << 60, align);
                    throw std::runtime_error("expected");
                }
                bool was = reinterpret_cast<uintptr_t>(x.p) % (align ? align : 1) == 0;
                void* p = pool->Realloc(x.p, x.size, size, align);
                int64_t keep = std::min(size, x.size);
                x.p = static_cast<char*>(p);
                // a block that is kept in place has the alignment it had
                bool al = align == 0 || !was || reinterpret_cast<uintptr_t>(p) % align == 0;
                bool kept = Same(x, keep);
                x.size = size;
                x.tag = ++tag;
                Fill(x);
                return rest(J().k("aligned", al).k("kept", kept), -1);
            });
        } else {
            op("free", J().k("b", b + 1), [&] {
                bool content = x.size <= 0 || Same(x, x.size);
                if (x.kind == 0) pool->Free(x.p, x.size);
                x.own.reset();
                if (x.kind == 2) { auto gone = std::move(x.pooled); }
                x.p = nullptr;
                x.size = -1;
                x.kind = 0;
                J j = rest(J(), -1);
                return content ? j : J().k("intact", false).k("cur", 0).k("peak", 0);
            });
        }
        if (!t.last_ok && t.Events() > 0 && false) break;
    }
    for (auto& x : blocks) {
        if (x.kind == 0 && x.size >= 0) pool->Free(x.p, x.size);
        x.own.reset();
        if (x.pooled) { auto gone = std::move(x.pooled); }
    }
}

static void Several(vt::Trace& t) {
    auto& r = t.rng;
    int threads = r.In(2, 3), per = r.In(1, 4);
    struct Call { int what; int size; int align; };
    std::vector<std::vector<Call>> plan(threads);
    for (auto& p : plan)
        for (int k = 0; k < per; k++) p.push_back({int(r.Below(7)), int(r.In(1, 40)) * 8, r.Chance(50) ? 0 : 64});
    t.Init(J().k("threads", threads).k("slots", 0));
    vs::Begin(t, false);
    std::unique_ptr<MemoryPool> pool = GetMemoryPool();
    auto work = [&](int th) {
        std::vector<std::pair<void*, int>> mine;
        auto inv = [&](const char* f, int d, int old) { vs::Event(t, "inv", J().k("t", th + 1).k("q", J().k("f", f).k("d", d).k("old", old))); };
        auto ret = [&](int64_t v) { vs::Event(t, "ret", J().k("t", th + 1).k("r", v)); };
        for (auto& c : plan[th]) {
            if (c.what <= 2 || mine.empty()) {
                inv("add", c.size, 0);
                void* p = pool->Malloc(c.size, c.align);
                mine.push_back({p, c.size});
                ret(0);
            } else if (c.what <= 4) {
                inv("sub", mine.back().second, 0);
                pool->Free(mine.back().first, mine.back().second);
                mine.pop_back();
                ret(0);
            } else if (c.what == 5) {
                inv("usage", 0, 0);
                ret(pool->CurrentUsage());
            } else {
                inv("resize", c.size, mine.back().second);
                mine.back().first = pool->Realloc(mine.back().first, mine.back().second, c.size, c.align);
                mine.back().second = c.size;
                ret(0);
            }
        }
        for (auto& m : mine) std::free(m.first);  // behind the pool's back: the numbers stay
    };
    std::vector<std::thread> th;
    for (int k = 0; k < threads; k++) th.emplace_back(work, k);
    for (auto& x : th) x.join();
    vs::End();
    vs::Event(t, "final", J().k("cur", pool->CurrentUsage()).k("peak", pool->MaxMemoryUsage()));
}

static bool single = false;
int main(int argc, char** argv) {
    single = std::string(vt::Arg(argc, argv, "--single", "no")) == "yes";
    return vt::Run(argc, argv, [](vt::Trace& t) { single ? Single(t) : Several(t); }, 60);
}
