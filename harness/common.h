#pragma once
#include <fstream>
#include <memory>
#include <string>
#include <vector>

#include <sys/stat.h>
#include <unistd.h>

#include "eckit/exception/Exceptions.h"
#include "eckit/log/Log.h"
#include "eckit/runtime/Main.h"
#include "mc/mc.h"

// eckit's process object, in every worker
static mc::Init harness_init([]() {
    // ~ is a directory of this worker's scratch
    char cwd[1024];
    std::string home = std::string(::getcwd(cwd, sizeof(cwd))) + "/home";
    ::mkdir(home.c_str(), 0777);
    setenv("ECKIT_HOME", home.c_str(), 1);
    setenv("MC_HOME", home.c_str(), 1);
    setenv("ECKIT_EXCEPTION_IS_SILENT", "1", 1);
    setenv("ECKIT_ASSERT_FAILED_IS_SILENT", "1", 1);
    setenv("ECKIT_SERIOUS_BUG_IS_SILENT", "1", 1);
    static const char* argv[] = {"harness", nullptr};
#ifdef HARNESS_MAIN
    HARNESS_MAIN(1, const_cast<char**>(argv));
#else
    eckit::Main::initialise(1, const_cast<char**>(argv), "MC_HOME");
#endif
    eckit::Log::info() << std::endl;
    eckit::Log::warning() << std::endl;
    eckit::Log::error() << std::endl;
    eckit::Log::debug() << std::endl;
    eckit::Log::status() << std::endl;
    eckit::Log::message() << std::endl;
});

inline mc::Opts opts(int split, int parts = 8) {
    mc::Opts o;
    o.split = split;
    o.parts = parts;
    return o;
}

inline mc::Opts thorough(int split, int parts = 8) {
    mc::Opts o = opts(split, parts);
    o.thoroughOnly = true;
    return o;
}

inline void putFile(const std::string& path, const std::string& data) {
    std::ofstream f(path, std::ios::binary | std::ios::trunc);
    f.write(data.data(), data.size());
}
inline std::string getFile(const std::string& path) {
    std::ifstream f(path, std::ios::binary);
    return std::string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
}
inline bool fileExists(const std::string& path) {
    struct stat st;
    return ::stat(path.c_str(), &st) == 0;
}
