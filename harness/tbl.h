// Tables on the file system in memory, driven through the public interface.
#pragma once
#include <chrono>
#include <condition_variable>
#include <deque>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <string>
#include <thread>
#include <vector>

#include "arrow/api.h"
#include "arrow/c/abi.h"
#include "arrow/c/bridge.h"
#include "arrow/ipc/json_simple.h"
#include "memfs.h"
#include "paimon/catalog/catalog.h"
#include "paimon/catalog/identifier.h"
#include "paimon/commit_context.h"
#include "paimon/commit_message.h"
#include "paimon/defs.h"
#include "paimon/executor.h"
#include "paimon/file_store_commit.h"
#include "paimon/file_store_write.h"
#include "paimon/memory/memory_pool.h"
#include "paimon/read_context.h"
#include "paimon/reader/batch_reader.h"
#include "paimon/record_batch.h"
#include "paimon/scan_context.h"
#include "paimon/table/source/plan.h"
#include "paimon/table/source/startup_mode.h"
#include "paimon/table/source/table_read.h"
#include "paimon/table/source/table_scan.h"
#include "paimon/write_context.h"

namespace tbl {
using paimon::Result;
using paimon::Status;
using Options = std::map<std::string, std::string>;
using Messages = std::vector<std::shared_ptr<paimon::CommitMessage>>;
using Spec = std::map<std::string, std::string>;

// every task at once, in the calling thread
class Inline : public paimon::Executor {
 public:
    void Add(std::function<void()> f) override { f(); }
};
// every task a little later, in a thread of its own
class Late : public paimon::Executor {
 public:
    Late() : worker_([this] { Work(); }) {}
    ~Late() override {
        {
            std::lock_guard<std::mutex> l(m_);
            stop_ = true;
        }
        cv_.notify_all();
        worker_.join();
    }
    void Add(std::function<void()> f) override {
        memfs::Client* c = memfs::self;
        std::lock_guard<std::mutex> l(m_);
        q_.push_back([c, f] {
            memfs::As as(c);
            f();
        });
        cv_.notify_all();
    }

 private:
    void Work() {
        std::unique_lock<std::mutex> l(m_);
        while (true) {
            cv_.wait(l, [&] { return stop_ || !q_.empty(); });
            if (q_.empty()) return;
            late_.wait_for(l, std::chrono::microseconds(300));
            auto f = std::move(q_.front());
            q_.pop_front();
            l.unlock();
            f();
            f = nullptr;
            l.lock();
        }
    }
    std::mutex m_;
    std::condition_variable cv_, late_;
    std::deque<std::function<void()>> q_;
    bool stop_ = false;
    std::thread worker_;
};
inline bool late = false;
inline int real = 0;  // threads, if tasks are to run in parallel
inline std::shared_ptr<paimon::Executor> Exec() {
    if (real) return paimon::CreateDefaultExecutor(real);
    if (late) return std::make_shared<Late>();
    return std::make_shared<Inline>();
}

struct Table {
    std::string root = "/w";
    std::string path = "/w/d.db/t";
    std::shared_ptr<arrow::Schema> schema;
    std::vector<std::string> parts, keys;
    Options options;

    Status Make() const {
        PAIMON_ASSIGN_OR_RAISE(auto catalog, paimon::Catalog::Create(root, options));
        PAIMON_RETURN_NOT_OK(catalog->CreateDatabase("d", {}, true));
        ArrowSchema c;
        if (!arrow::ExportSchema(*schema, &c).ok()) return Status::Invalid("export");
        return catalog->CreateTable(paimon::Identifier("d", "t"), &c, parts, keys, options, false);
    }
    Result<std::unique_ptr<paimon::FileStoreWrite>> Writer(const std::string& user, bool streaming = false,
                                                           const Options& more = {}) const {
        paimon::WriteContextBuilder b(path, user);
        Options o = options;
        for (auto& [k, v] : more) o[k] = v;
        b.SetOptions(o).WithStreamingMode(streaming).WithExecutor(Exec()).WithWriteId(1);
        PAIMON_ASSIGN_OR_RAISE(auto ctx, b.Finish());
        return paimon::FileStoreWrite::Create(std::move(ctx));
    }
    Result<std::unique_ptr<paimon::FileStoreCommit>> Committer(const std::string& user, bool ignore_empty = true,
                                                               const Options& more = {}) const {
        paimon::CommitContextBuilder b(path, user);
        Options o = options;
        for (auto& [k, v] : more) o[k] = v;
        o["enable-pk-commit-in-inte-test"] = "";
        b.SetOptions(o).IgnoreEmptyCommit(ignore_empty).WithExecutor(Exec());
        PAIMON_ASSIGN_OR_RAISE(auto ctx, b.Finish());
        return paimon::FileStoreCommit::Create(std::move(ctx));
    }
    Result<std::unique_ptr<paimon::RecordBatch>> Batch(const std::string& json, const Spec& partition, int32_t bucket,
                                                       const std::vector<paimon::RecordBatch::RowKind>& kinds = {}) const {
        auto made = arrow::ipc::internal::json::ArrayFromJSON(arrow::struct_(schema->fields()), json);
        if (!made.ok()) return Status::Invalid("json ", made.status().ToString());
        ArrowArray c;
        if (!arrow::ExportArray(*made.ValueOrDie(), &c).ok()) return Status::Invalid("export");
        paimon::RecordBatchBuilder b(&c);
        b.SetPartition(partition).SetBucket(bucket);
        if (!kinds.empty()) b.SetRowKinds(kinds);
        return b.Finish();
    }
    // the rows of the given splits; arrays must not outlive the reader
    struct Batches {
        std::unique_ptr<paimon::TableRead> read;
        std::unique_ptr<paimon::BatchReader> reader;
        std::vector<std::shared_ptr<arrow::StructArray>> arrays;
    };
    Result<Batches> Rows(const std::vector<std::shared_ptr<paimon::Split>>& splits,
                         const std::vector<std::string>& columns = {}, const Options& more = {}, int threads = 0) const {
        paimon::ReadContextBuilder b(path);
        Options o = options;
        for (auto& [k, v] : more) o[k] = v;
        b.SetOptions(o).WithExecutor(Exec());
        if (!columns.empty()) b.SetReadSchema(columns);
        if (threads > 0) b.EnableMultiThreadRowToBatch(true).SetRowToBatchThreadNumber(threads);
        PAIMON_ASSIGN_OR_RAISE(auto ctx, b.Finish());
        Batches out;
        PAIMON_ASSIGN_OR_RAISE(out.read, paimon::TableRead::Create(std::move(ctx)));
        PAIMON_ASSIGN_OR_RAISE(out.reader, out.read->CreateReader(splits));
        PAIMON_RETURN_NOT_OK(Drain(out.reader.get(), &out.arrays));
        return out;
    }
    static Status Drain(paimon::BatchReader* reader, std::vector<std::shared_ptr<arrow::StructArray>>* out) {
        while (true) {
            PAIMON_ASSIGN_OR_RAISE(auto batch, reader->NextBatch());
            if (paimon::BatchReader::IsEofBatch(batch)) return Status::OK();
            auto arr = arrow::ImportArray(batch.first.get(), batch.second.get());
            if (!arr.ok()) return Status::Invalid("import ", arr.status().ToString());
            out->push_back(std::static_pointer_cast<arrow::StructArray>(arr.ValueOrDie()));
        }
    }
    Result<std::unique_ptr<paimon::TableScan>> Scan(bool streaming, const Options& more = {}) const {
        paimon::ScanContextBuilder b(path);
        Options o = options;
        for (auto& [k, v] : more) o[k] = v;
        b.SetOptions(o).WithStreamingMode(streaming).WithExecutor(Exec());
        PAIMON_ASSIGN_OR_RAISE(auto ctx, b.Finish());
        return paimon::TableScan::Create(std::move(ctx));
    }
};

}  // namespace tbl
