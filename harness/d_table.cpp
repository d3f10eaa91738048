// Histories of a table: writing, committing, overwriting, expiring, cleaning, reading.
#include "tsim.h"

using namespace sim;
namespace {
using memfs::FsFactory;
REGISTER_PAIMON_FACTORY(FsFactory);

std::string mode;

// options that make metadata be merged, files be rolled and splits be cut often
Options Small(vt::Rng& r) {
    Options o;
    o["manifest.target-file-size"] = r.Pick<std::string>({"1 B", "600 B", "2 KB", "8 MB"});
    o["manifest.merge-min-count"] = r.Pick<std::string>({"1", "2", "3", "30"});
    o["manifest.full-compaction-threshold-size"] = r.Pick<std::string>({"1 B", "1 KB", "16 MB"});
    o["target-file-size"] = r.Pick<std::string>({"1 B", "200 B", "128 MB"});
    o["source.split.target-size"] = r.Pick<std::string>({"1 B", "500 B", "128 MB"});
    o["source.split.open-file-cost"] = r.Pick<std::string>({"1 B", "4 MB"});
    return o;
}
Options ReadOpts(vt::Rng& r) {
    Options o;
    o["source.split.target-size"] = r.Pick<std::string>({"1 B", "500 B", "128 MB"});
    o["source.split.open-file-cost"] = r.Pick<std::string>({"1 B", "4 MB"});
    o["lite.chunk-rows"] = r.Pick<std::string>({"1", "2", "100"});
    return o;
}
Sim::PSpec RandSpec(Sim& s) {
    int p = s.rng.Chance(25) ? -1 : s.rng.Below(4);
    int q = s.np < 2 || s.rng.Chance(40) ? -1 : s.rng.Below(3);
    return {p, q};
}
std::vector<Sim::PSpec> RandSpecs(Sim& s) {
    std::vector<Sim::PSpec> r;
    if (s.np == 0 || s.rng.Chance(15)) return r;
    int n = s.rng.In(1, 2);
    for (int i = 0; i < n; i++) {
        auto x = RandSpec(s);
        if (x.first < 0 && x.second < 0) x.first = 0;
        r.push_back(x);
    }
    return r;
}


void ReadAll(Sim& s, bool beyond = true) {
    int64_t last = s.Newest();
    for (int64_t id = 1; id <= last + (beyond ? 1 : 0); id++) s.ReadSnapshot(id, ReadOpts(s.rng));
}

// everything users can do one after the other, with identifiers of their own
struct Users {
    Sim& s;
    int64_t ident[7] = {0, 0, 0, 0, 0, 0, 0};
    explicit Users(Sim& sim) : s(sim) {}
    // appends rows; undisturbed
    bool Append(int u, int n = -1) {
        Client* c = s.C(u);
        int64_t id = ++ident[u];
        auto rows = s.NewRows(n >= 0 ? n : s.rng.Chance(15) ? 0 : s.rng.In(1, 6));
        Messages m;
        if (!s.Write(c, rows, id, &m, s.rng.Chance(50))) return false;
        int64_t wm = s.rng.Chance(40) ? s.rng.Below(50) : -1;
        if (s.rng.Chance(60)) return s.Commit(c, rows, m, id, wm, s.rng.Chance(70));
        return s.Filter(c, {{id, {rows, m}}}, wm, s.rng.Chance(70));
    }
    bool Replace(int u) {
        Client* c = s.C(u);
        int64_t id = ++ident[u];
        int how = s.rng.Below(3);
        auto rows = how == 2 || s.rng.Chance(30) ? std::vector<Row>() : s.NewRows(s.rng.In(1, 5));
        auto specs = RandSpecs(s);
        Messages m;
        if (!s.Write(c, rows, id, &m)) return false;
        return s.Overwrite(c, how, specs, rows, m, id, how == 2 || s.rng.Chance(60) ? -1 : s.rng.Below(50));
    }
    bool Any(int u) { return s.rng.Chance(60) || s.rowids ? Append(u) : Replace(u); }
};

// one process at a time, no faults: any mix of operations
void Serial(Sim& s, int appends = 50) {
    Users us(s);
    int n = s.rng.In(3, 10);
    for (int step = 0; step < n; step++) {
        if (s.rng.Chance(10)) s.Look();
        s.rng.Chance(appends) || s.rowids ? us.Append(s.rng.In(1, 2)) : us.Replace(s.rng.In(1, 2));
        Sim::Tick(s.rng.Below(3));
        if (s.rng.Chance(30)) s.Look();
    }
    s.Look();
    ReadAll(s);
}

struct Plan {
    int how = 0;  // 0 commit, 1 filter, 2 overwrite, 3 filter-and-overwrite, 4 drop
    int64_t ident = 0, wm = -1;
    std::vector<Row> rows;
    std::vector<Sim::PSpec> specs;
    Messages msgs;
    std::map<int64_t, Sim::Unit> units;
    bool ign = true;
};
// prepares something to be committed (written, not committed)
Plan Prepare(Sim& s, Client* c, int64_t* ident, bool appends_only) {
    Plan p;
    p.how = appends_only || s.rng.Chance(60) ? s.rng.Below(2) : s.rng.In(2, 4);
    p.wm = s.rng.Chance(40) ? s.rng.Below(50) : -1;
    p.ign = s.rng.Chance(70);
    if (p.how == 1) {
        int n = s.rng.In(1, 3);
        for (int i = 0; i < n; i++) {
            auto rows = s.NewRows(s.rng.In(p.ign ? 1 : 0, 3));
            Messages m;
            int64_t id = ++*ident;
            if (s.Write(c, rows, id, &m)) p.units[id] = {rows, m};
        }
        return p;
    }
    p.ident = ++*ident;
    if (p.how != 4) p.rows = s.NewRows(s.rng.In(p.how == 0 ? 1 : 0, 4));
    if (p.how >= 2) p.specs = RandSpecs(s);
    if (p.how == 4) p.wm = -1;
    s.Write(c, p.rows, p.ident, &p.msgs);
    return p;
}
bool Do(Sim& s, Client* c, const Plan& p) {
    if (p.how == 0) return s.Commit(c, p.rows, p.msgs, p.ident, p.wm, p.ign);
    if (p.how == 1) return s.Filter(c, p.units, p.wm, p.ign);
    return s.Overwrite(c, p.how - 2, p.specs, p.rows, p.msgs, p.ident, p.wm);
}

// several processes at the same time
void Concurrent(Sim& s, bool expiring) {
    Users us(s);
    int before = s.rng.In(expiring ? 3 : 0, expiring ? 6 : 3);
    for (int i = 0; i < before; i++) {
        us.Any(s.rng.In(1, 3));
        Sim::Tick(s.rng.Below(2));
    }
    int n = s.rng.In(expiring ? 1 : 2, expiring ? 2 : 3);
    int rounds = s.rng.In(1, 2);
    int published = 0;
    std::vector<std::vector<Plan>> plans(n + 1);
    bool inside = s.rng.Chance(30);  // writing, too, happens at the same time
    for (int u = 1; u <= n; u++)
        for (int r = 0; r < rounds; r++) {
            if (!inside) plans[u].push_back(Prepare(s, s.C(u), &us.ident[u], s.rowids));
            published += 3;
        }
    s.conc = true;
    s.baton.rng = &s.rng;
    s.baton.sticky = s.rng.Pick<int>({1, 2, 3, 5, 10, 30});
    std::vector<std::pair<Client*, std::function<void()>>> jobs;
    for (int u = 1; u <= n; u++) {
        jobs.emplace_back(s.C(u), [&s, &us, &plans, inside, u, rounds] {
            for (int r = 0; r < rounds; r++) {
                Plan p = inside ? Prepare(s, s.C(u), &us.ident[u], s.rowids) : plans[u][r];
                bool ok = Do(s, s.C(u), p);
                // a commit with an uncertain outcome is submitted again
                if (!ok && p.how == 1 && s.rng.Chance(70)) Do(s, s.C(u), p);
            }
        });
    }
    if (s.rng.Chance(50)) {
        jobs.emplace_back(s.C(5), [&s] {
            for (int k = 0; k < 3; k++) s.LookAs(s.C(5));
        });
    }
    if (expiring) {
        // keeps more than what is published meanwhile: no commit in progress is overtaken
        int min = published + s.rng.In(0, 2);
        jobs.emplace_back(s.C(4), [&s, min] { s.Expire(s.C(4), min, min + s.rng.Below(3), s.rng.In(1, 9), 500 + 1000 * s.rng.Below(4)); });
        // make enough history
        s.conc = false;
        for (int i = 0; i < min; i++) {
            us.Any(s.rng.In(1, 3));
            Sim::Tick(s.rng.Below(2));
        }
        s.conc = true;
    }
    s.baton.Run(jobs);
    s.conc = false;
    s.baton.rng = nullptr;
    s.Look();
    ReadAll(s);
    us.Any(1);
    s.Look();
}

// a fault at one file operation of one call; afterwards the table is used again
void Faulty(Sim& s) {
    Users us(s);
    int before = s.rng.In(0, 3);
    for (int i = 0; i < before; i++) us.Any(s.rng.In(1, 2));
    Client* c = s.C(1);
    if (s.rng.Chance(25)) {
        // while writing
        auto rows = s.NewRows(s.rng.In(1, 4));
        int64_t id = ++us.ident[1];
        Messages m;
        auto f = [&] { s.Write(c, rows, id, &m, true); };
        int64_t n = s.Rehearse(c, f);
        s.Disturbed(c, f, s.rng.In(1, n), s.AnyFault());
    } else {
        Plan p = Prepare(s, c, &us.ident[1], s.rowids);
        auto f = [&] { Do(s, c, p); };
        int64_t n = s.Rehearse(c, f);
        if (n > 0) s.Disturbed(c, f, s.rng.In(1, n), s.AnyFault());
    }
    s.Look();
    ReadAll(s);
    for (int i = 0; i < 2; i++) us.Any(s.rng.In(1, 2));
    s.Look();
    ReadAll(s);
}

// identified commits submitted again and again, with failures in between and others at work
void Retry(Sim& s) {
    Users us(s);
    if (s.rng.Chance(40)) us.Any(2);
    Client* c = s.C(1);
    std::map<int64_t, Sim::Unit> all;
    int n = s.rng.In(1, 5);
    int64_t id = 0;
    for (int i = 0; i < n; i++) {
        id += s.rng.In(1, 3);
        auto rows = s.NewRows(s.rng.In(1, 3));
        Messages m;
        s.Write(c, rows, id, &m);
        all[id] = {rows, m};
    }
    int rounds = s.rng.In(1, 5);
    bool over = s.rng.Chance(20);
    for (int r = 0; r <= rounds; r++) {
        // identifiers are submitted in order: a part that reaches up to some identifier
        std::map<int64_t, Sim::Unit> part;
        int64_t upto = r == rounds ? id : s.rng.In(1, id);
        // what is known to be in the history may be left out
        int64_t done = s.rng.Chance(50) ? s.IdentOf(1) : 0;
        for (auto& [k, u] : all)
            if (k <= upto && (k > done || s.rng.Chance(30))) part[k] = u;
        auto f = [&] {
            if (over && part.size() == 1) {
                auto& [k, u] = *part.begin();
                s.Overwrite(c, 1, {}, u.rows, u.msgs, k);
            } else {
                s.Filter(c, part);
            }
        };
        if (r < rounds && s.rng.Chance(60)) {
            int64_t ops = s.Rehearse(c, f);
            if (ops > 0) s.Disturbed(c, f, s.rng.In(1, ops), s.AnyFault());
        } else {
            f();
        }
        if (s.rng.Chance(40)) us.Append(s.rng.In(2, 3));
        if (s.rng.Chance(30)) s.Look();
    }
    s.Look();
    ReadAll(s, false);
}

void Expiring(Sim& s) {
    Users us(s);
    int rounds = s.rng.In(1, 4);
    for (int r = 0; r < rounds; r++) {
        int n = s.rng.In(0, 6);
        for (int i = 0; i < n; i++) {
            us.Any(s.rng.In(1, 2));
            Sim::Tick(s.rng.Below(3));
        }
        int min = s.rng.In(1, 4), max = min + s.rng.Below(5), lim = s.rng.Chance(40) ? 1000 : s.rng.In(0, 5);
        int64_t age = 500 + 1000 * s.rng.Below(12);
        Client* c = s.C(3);
        tbl::late = s.rng.Chance(20);
        auto f = [&] { s.Expire(c, min, max, lim, age); };
        if (s.rng.Chance(35)) {
            int64_t ops = s.Rehearse(c, f);
            if (ops > 0) s.Disturbed(c, f, s.rng.In(1, ops), s.AnyFault());
        } else {
            f();
        }
        tbl::late = false;
        s.Look();
        ReadAll(s);
    }
    us.Any(1);
    s.Look();
}

void Cleaning(Sim& s) {
    Users us(s);
    int rounds = s.rng.In(1, 3);
    for (int r = 0; r < rounds; r++) {
        int n = s.rng.In(1, 4);
        for (int i = 0; i < n; i++) {
            Client* c = s.C(1);
            int what = s.rng.Below(10);
            if (what < 4) {
                us.Any(s.rng.In(1, 2));
            } else if (what < 7) {
                Plan p = Prepare(s, c, &us.ident[1], s.rowids);
                auto f = [&] { Do(s, c, p); };
                int64_t ops = s.Rehearse(c, f);
                if (ops > 0) s.Disturbed(c, f, s.rng.In(1, ops), s.AnyFault());
            } else if (what < 8) {
                Messages m;  // written, never committed
                s.Write(c, s.NewRows(s.rng.In(1, 3)), ++us.ident[1], &m);
            } else if (what < 9) {
                s.Expire(s.C(3), s.rng.In(1, 3), 3, 1000, 500 + 1000 * s.rng.Below(4));
            } else {
                static const char* junk[] = {"manifest/manifest-x", "manifest/other", "snapshot/.snapshot-9.tmp", "snapshot/x.tmp",
                                             "manifest/.m.tmp", "bucket-0/data-x.orc", "bucket-0/data-y.txt", "readme",
                                             "bucket-0/note.orc", "index/index-x", "p=a/bucket-0/data-x.orc",
                                             "p=a/q=1/bucket-0/data-x.parquet", "p=a/q=1/bucket-1/manifest-z"};
                s.Junk(s.rng.Pick<std::string>(std::vector<std::string>(std::begin(junk), std::end(junk))));
            }
            Sim::Tick(s.rng.Below(3));
        }
        std::set<std::string> keep;
        for (auto& [k, node] : memfs::W().nodes)
            if (!node.dir && k.compare(0, s.t.path.size(), s.t.path) == 0 && s.rng.Chance(8)) keep.insert(k.substr(k.rfind('/') + 1));
        int64_t older = s.rng.Chance(50) ? Sim::Ms() + 500 : s.rng.In(0, Sim::Ms() / 1000) * 1000 + 500;
        Client* c = s.C(3);
        tbl::late = s.rng.Chance(30);
        auto f = [&] { s.Clean(c, older, keep); };
        if (s.rng.Chance(25)) {
            int64_t ops = s.Rehearse(c, f);
            if (ops > 0) s.Disturbed(c, f, s.rng.In(1, ops), s.AnyFault());
        } else {
            f();
        }
        tbl::late = false;
        s.Look();
        ReadAll(s);
    }
    us.Any(1);
    s.Look();
}

void Hints(Sim& s) {
    Users us(s);
    bool misled = false;
    int rounds = s.rng.In(1, 4);
    for (int r = 0; r < rounds; r++) {
        int n = s.rng.In(0, 3);
        for (int i = 0; i < n; i++) {
            us.Any(s.rng.In(1, 2));
            Sim::Tick(0);
        }
        if (s.rng.Chance(30)) {
            // misled by the hint, an expiration would leave holes in the history
            if (misled) s.Hint("EARLIEST", std::nullopt);
            misled = false;
            s.Expire(s.C(3), s.rng.In(1, 3), 3, 1000, 500 + 1000 * s.rng.Below(4));
        }
        s.Find();
        for (int k = s.rng.In(1, 2); k > 0; k--) {
            std::optional<std::string> text;
            switch (s.rng.Below(7)) {
                case 0: break;
                case 1: text = ""; break;
                case 2: text = s.rng.Pick<std::string>({"x", "-1", "0", " 1", "1x", "99999999999999999999", "\xff\xfe", "1\n", "+2", "0x1"}); break;
                default: text = std::to_string(s.rng.In(1, s.Newest() + 3)); break;
            }
            const char* which = s.rng.Chance(50) ? "LATEST" : "EARLIEST";
            if (memfs::W().nodes.count(s.t.path + "/snapshot")) {
                s.Hint(which, text);
                misled = misled || which[0] == 'E';
            }
            s.Find();
        }
        s.Look();
    }
    us.Any(1);
    s.Find();
    s.Look();
}

void Streaming(Sim& s) {
    Users us(s);
    const char* how[] = {"latest-full", "latest", "from-snapshot", "from-snapshot-full"};
    int before = s.rng.In(0, 4);
    auto open = [&] {
        int h = s.rng.Below(4);
        s.OpenStream(how[h], h >= 2 ? s.rng.In(1, s.Newest() + 2) : 0);
    };
    for (int i = 0; i < before; i++) {
        us.Any(s.rng.In(1, 2));
        Sim::Tick(s.rng.Below(2));
    }
    open();
    int n = s.rng.In(4, 14);
    for (int i = 0; i < n; i++) {
        int what = s.rng.Below(100);
        if (what < 45) {
            s.Poll(s.C(5), s.rng.Below(s.streams.size()));
        } else if (what < 75) {
            us.Any(s.rng.In(1, 2));
            Sim::Tick(s.rng.Below(2));
        } else if (what < 85) {
            s.Expire(s.C(3), s.rng.In(1, 3), 3 + s.rng.Below(3), 1000, 500 + 1000 * s.rng.Below(4));
        } else if (what < 92) {
            if (s.streams.size() < 3) open();
        } else if (what < 95) {
            s.Recreate();
            us.ident[1] = us.ident[2] = 0;
        } else {
            // a poll while others commit
            Plan p1 = Prepare(s, s.C(1), &us.ident[1], s.rowids);
            int k = s.rng.Below(s.streams.size());
            s.conc = true;
            s.baton.rng = &s.rng;
            s.baton.sticky = s.rng.Pick<int>({1, 2, 5, 20});
            s.baton.Run({{s.C(1), [&] { Do(s, s.C(1), p1); }}, {s.C(5), [&] { s.Poll(s.C(5), k); s.Poll(s.C(5), k); }}});
            s.baton.rng = nullptr;
            s.conc = false;
        }
    }
    for (size_t k = 0; k < s.streams.size(); k++)
        for (int i = 0; i < 8; i++) s.Poll(s.C(5), k);
}

void Gen(vt::Trace& tr) {
    Sim s(tr);
    s.rowids = mode.compare(0, 3, "rid") == 0;
    s.np = mode == "over" ? tr.rng.In(1, 2) : tr.rng.Below(3);
    s.buckets = s.rowids || tr.rng.Chance(70) ? -1 : tr.rng.In(1, 2);
    tr.Init(J().k("rid", s.rowids));
    auto o = Small(tr.rng);
    o["commit.max-retries"] = tr.rng.Pick<std::string>({"0", "1", "3", "10"});
    s.Make(o);
    if (mode == "serial" || mode == "rid-serial") Serial(s);
    if (mode == "over") Serial(s, 35);
    if (mode == "conc" || mode == "rid-conc") Concurrent(s, false);
    if (mode == "conc-expire") Concurrent(s, true);
    if (mode == "fault" || mode == "rid-fault") Faulty(s);
    if (mode == "retry") Retry(s);
    if (mode == "expire") Expiring(s);
    if (mode == "clean") Cleaning(s);
    if (mode == "hint") Hints(s);
    if (mode == "stream") Streaming(s);
}
}  // namespace

int main(int argc, char** argv) {
    mode = vt::Arg(argc, argv, "--mode", "serial");
    return vt::Run(argc, argv, Gen);
}
