// A scratch directory of its own for one trace.
#pragma once
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <sstream>
#include <string>

struct Scratch
{
    std::filesystem::path root;
    Scratch()
    {
        char const *base = std::getenv("VT_TMP");
        std::string t = std::string(base ? base : "/tmp") + "/vtXXXXXX";
        root = ::mkdtemp(t.data());
    }
    ~Scratch()
    {
        std::error_code ec;
        std::filesystem::remove_all(root, ec);
    }
    Scratch(Scratch const &) = delete;
    std::filesystem::path path(std::string const &name) const { return root / name; }
    void write(std::string const &name, std::string const &data) const
    {
        std::ofstream f(root / name, std::ios::binary | std::ios::trunc);
        f.write(data.data(), (std::streamsize)data.size());
    }
    std::string read(std::string const &name) const
    {
        std::ifstream f(root / name, std::ios::binary);
        std::ostringstream s;
        s << f.rdbuf();
        return s.str();
    }
};
