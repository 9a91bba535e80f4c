// Scratch files of a check, inside the build directory.
#pragma once

#include <sys/stat.h>
#include <unistd.h>
#include <fstream>
#include <sstream>
#include <string>

namespace ref {

// A file name that no other worker uses; the file is removed at the end.
struct ScratchFile {
    std::string path;
    explicit ScratchFile(const char *id, const char *ext) {
        const std::string dir = std::string("build/tmp-") + id;
        mkdir("build", 0777);
        mkdir(dir.c_str(), 0777);
        path = dir + "/" + std::to_string(getpid()) + ext;
        unlink(path.c_str());
    }
    ~ScratchFile() { unlink(path.c_str()); }
    ScratchFile(const ScratchFile &) = delete;
    void write(const std::string &bytes) const {
        std::ofstream f(path, std::ios::binary);
        f << bytes;
    }
    std::string read() const {
        std::ifstream f(path, std::ios::binary);
        std::ostringstream s;
        s << f.rdbuf();
        return s.str();
    }
};

}  // namespace ref
