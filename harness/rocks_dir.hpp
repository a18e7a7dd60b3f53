// rocks_dir.hpp - a scratch database directory
#pragma once
#include <filesystem>
#include <stdexcept>
#include "db/rocks_store.hpp"

struct Dir {
    std::string path;
    Dir() {
        const char* base = getenv("VF_TMP");
        std::string t = std::string(base && *base ? base : "/tmp") + "/vfdb-XXXXXX";
        if (!mkdtemp(&t[0])) throw std::runtime_error("no scratch directory");
        path = t;
        ron::ROCKSDB_STORE_DIR = path + "/db";
    }
    ~Dir() {
        std::error_code e;
        if (path.find("/vfdb-") != std::string::npos) std::filesystem::remove_all(path, e);
    }
};
