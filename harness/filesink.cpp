// Drives file loggers: rotation, compression, files and directories which disappear.
#include "trace.hpp"
#include "scratch.hpp"

#include "fly/coders/coder_config.hpp"
#include "fly/coders/huffman/huffman_decoder.hpp"
#include "fly/logger/log.hpp"
#include "fly/logger/logger.hpp"
#include "fly/logger/logger_config.hpp"

#include <algorithm>
#include <map>
#include <memory>

using namespace vt;
namespace fl = fly::logger;
namespace fs = std::filesystem;

struct Config : fl::LoggerConfig
{
    void set(std::uintmax_t size, bool compress) { m_default_max_log_file_size = size; m_default_compress_log_files = compress; }
};
struct Coder : fly::coders::CoderConfig
{
    void set(bool ok) { m_default_huffman_encoder_max_code_length = ok ? 11 : 0; }
};

struct Msg { int len, level; };
static std::vector<Msg> msgs;

static std::string text(int id, int len)
{
    std::string s = std::to_string(id) + "#";
    for (int k = 0; k < len; ++k) s += (char)('a' + (id * 5 + k * k) % 26);
    return s;
}

// the records in the contents of a log file; -1 for anything that is not a record as logged
static std::string records(std::string const &data, std::map<int, int> *sizes)
{
    std::string o = "[";
    std::size_t at = 0;
    while (at < data.size())
    {
        std::size_t end = data.find('\x1e', at);
        std::string r = data.substr(at, end == std::string::npos ? std::string::npos : end - at);
        int idx = -1, id = -1;
        std::vector<std::string> f(1);
        for (char c : r)
        {
            if (c == '\x1f') f.emplace_back();
            else f.back() += c;
        }
        if (end != std::string::npos && f.size() == 5)
        {
            id = std::atoi(f[4].c_str());
            idx = std::atoi(f[0].c_str());
            bool ok = id >= 0 && id < (int)msgs.size() && f[4] == text(id, msgs[(std::size_t)id].len) &&
                f[1] == std::string(1, (char)msgs[(std::size_t)id].level) && std::atof(f[2].c_str()) >= 0 &&
                f[3] == "file.cpp:func:" + std::to_string(id + 5) && f[0] == std::to_string(idx);
            if (!ok) id = -1;
            if (ok && sizes) (*sizes)[id] = (int)(end + 1 - at);
        }
        if (o.size() > 1) o += ",";
        o += "[" + std::to_string(idx) + "," + std::to_string(id) + "]";
        if (end == std::string::npos) break;
        at = end + 1;
    }
    return o + "]";
}

static std::map<int, int> sizes;

static std::string slurp(fs::path const &p)
{
    std::ifstream f(p, std::ios::binary);
    std::ostringstream s;
    s << f.rdbuf();
    return s.str();
}

// a file and its encoded form, if any, by the part of the name they share
struct Entry
{
    int n {0}, owner {0};
    std::string form;
    fs::path path;
};
// which logger created a file
static std::map<std::string, int> owners;

// What is new was created by `logger`.
static std::map<std::string, Entry> list(fs::path const &dir, int logger)
{
    std::map<std::string, Entry> found;
    for (auto const &e : fs::directory_iterator(dir))
    {
        std::string const name = e.path().filename().string();
        if (e.is_symlink()) continue;
        int n = 0;
        if (std::sscanf(name.c_str(), "Log_%d_", &n) != 1) n = 0;
        std::string form = name.ends_with(".log") ? "plain" : name.ends_with(".log.enc") ? "encoded" : "other";
        std::string const stem = name.substr(0, form == "other" ? name.size() : name.rfind(".log"));
        if (logger != 0) owners.try_emplace(stem, logger);
        // what is left of an attempt to encode does no harm
        if (found.count(stem) && found[stem].form == "plain") continue;
        found[stem] = {n, owners.count(stem) ? owners[stem] : 0, form, e.path()};
    }
    return found;
}

static std::string directory(fs::path const &dir, Scratch const &scratch, int logger = 0)
{
    std::string o = "[";
    for (auto const &[stem, f] : list(dir, logger))
    {
        std::string data;
        if (f.form == "encoded")
        {
            fs::path const out = scratch.path("decoded");
            fly::coders::HuffmanDecoder decoder;
            bool ok = decoder.decode_file(f.path, out);
            if (ok) data = slurp(out);
            fs::remove(out);
            if (!ok) continue;
        }
        else data = slurp(f.path);
        if (o.size() > 1) o += ",";
        o += Ev("f").i("n", f.n).s("form", f.form).raw("recs", records(data, &sizes)).i("size", (long long)data.size()).body.insert(0, "{") + "}";
    }
    return o + "]";
}

struct Sink
{
    std::shared_ptr<Config> config {std::make_shared<Config>()};
    std::shared_ptr<Coder> coder {std::make_shared<Coder>()};
    std::shared_ptr<fl::Logger> logger;
    bool encodable {true};
};

static void scenario(long, Rng &rng)
{
    Scratch scratch;
    msgs.clear();
    sizes.clear();
    owners.clear();
    fs::path const dir = scratch.path("logs"), aside = scratch.path("aside");
    fs::create_directory(dir);
    static int const limits[] = {0, 1, 60, 100, 200, 400, 100000};
    bool there = true;
    std::vector<Sink> sinks;
    int const most = rng.chance(1, 2) ? 1 : 2 + (int)rng.below(2);
    auto open = [&]() {
        Sink k;
        int const g = (int)sinks.size() + 1;
        int limit = limits[rng.below(7)];
        bool compress = rng.chance(1, 2);
        k.encodable = rng.chance(4, 5);
        k.config->set((std::uintmax_t)limit, compress);
        k.coder->set(k.encodable);
        there = rng.chance(15, 16);
        if (!there) fs::rename(dir, aside);
        begin(Ev("open"));
        k.logger = fl::create_file_logger("file" + std::to_string(g), k.config, k.coder, dir);
        list(there ? dir : aside, g);
        emit(Ev("open").i("g", g).i("limit", limit).b("compress", compress).b("encodable", k.encodable).b("writable", there).b("ok", k.logger != nullptr));
        if (!there) { fs::rename(aside, dir); there = true; }
        sinks.push_back(std::move(k));
    };
    open();
    int steps = 3 + (int)rng.below(10);
    for (int s = 0; s < steps; ++s)
    {
        if ((int)sinks.size() < most && rng.chance(1, 2)) open();
        int const g = 1 + (int)rng.below(sinks.size());
        Sink &k = sinks[(std::size_t)g - 1];
        if (!k.logger) continue;
        std::uint64_t what = rng.below(20);
        // the current file of this logger
        auto current = [&]() {
            Entry last;
            for (auto const &[stem, e] : list(dir, 0)) if (e.owner == g && e.n > last.n) last = e;
            return last;
        };
        if (what < 14)
        {
            if (rng.chance(1, 25)) { fs::rename(dir, aside); there = false; }
            int burst = 1 + (int)rng.below(4);
            for (int b = 0; b < burst; ++b)
            {
                static int const lens[] = {0, 3, 10, 30, 60, 120};
                int id = (int)msgs.size(), len = lens[rng.below(6)], level = (int)rng.below(4);
                msgs.push_back({len, level});
                fl::Trace t {"file.cpp", "func", (std::uint32_t)id + 5};
                begin(Ev("log").i("rec", id));
                std::string const m = text(id, len);
                if (level == 0) k.logger->debug(std::move(t), "{}", m);
                else if (level == 1) k.logger->info(std::move(t), "{}", m);
                else if (level == 2) k.logger->warn(std::move(t), "{}", m);
                else k.logger->error(std::move(t), "{}", m);
                directory(there ? dir : aside, scratch, g);
                int size = sizes.count(id) ? sizes[id] : 0;
                emit(Ev("log").i("g", g).i("rec", id).i("size", size).b("writable", there));
            }
            if (!there) { fs::rename(aside, dir); there = true; }
        }
        else if (what < 16)
        {
            int limit = limits[rng.below(7)];
            bool compress = rng.chance(1, 2);
            k.config->set((std::uintmax_t)limit, compress);
            emit(Ev("set").i("g", g).i("limit", limit).b("compress", compress).b("encodable", k.encodable));
        }
        else if (what < 17)
        {
            auto const files = list(dir, 0);
            if (!files.empty())
            {
                auto it = files.begin();
                std::advance(it, (long)rng.below(files.size()));
                Entry const lost = rng.chance(1, 2) && current().n != 0 ? current() : it->second;
                std::string const name = lost.path.filename().string(), stem = name.substr(0, name.rfind(".log"));
                // with everything that belongs to it
                for (auto const &e : fs::directory_iterator(dir))
                {
                    if (e.path().filename().string().starts_with(stem + ".log")) fs::remove(e.path());
                }
                emit(Ev("lose").i("g", lost.owner).i("n", lost.n));
            }
        }
        else if (what < 18)
        {
            // there is no space for the encoded form of the current file
            Entry const e = current();
            if (e.n != 0 && e.form == "plain")
            {
                fs::path p = e.path;
                p.replace_extension(".log.enc");
                std::error_code ec;
                fs::create_symlink("/dev/full", p, ec);
                if (!ec) emit(Ev("block").i("g", g).i("n", e.n));
            }
        }
        emit(Ev("dir").raw("files", directory(dir, scratch)));
    }
    sinks.clear();
    emit(Ev("dir").raw("files", directory(dir, scratch)));
}

int main(int argc, char **argv)
{
    return main_loop(argc, argv, [](long id, Rng &rng) { scenario(id, rng); });
}
