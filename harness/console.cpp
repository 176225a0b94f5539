// Drives what is shown on the terminal: stylers, console loggers and failed assertions.
#include "trace.hpp"

#include "fly/assert/detail/assert_enabled.hpp"
#include "fly/logger/log.hpp"
#include "fly/logger/logger.hpp"
#include "fly/logger/logger_config.hpp"
#include "fly/logger/styler.hpp"

#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>

#include <iomanip>
#include <iostream>
#include <memory>
#include <sstream>

using namespace vt;
namespace fl = fly::logger;

static bool g_fake_clock = false;
static timespec g_clock;
extern "C" int clock_gettime(clockid_t id, timespec *ts) noexcept
{
    if (g_fake_clock && id == CLOCK_REALTIME)
    {
        *ts = g_clock;
        return 0;
    }
    return (int)syscall(SYS_clock_gettime, id, ts);
}

// ---------------------------------------------------------------- what appears on the streams
static int s_file[3], s_real[3];
static std::ostringstream *s_other;

static std::string codes(std::string_view s)
{
    std::string o = "[";
    for (unsigned char c : s) o += (o.size() > 1 ? "," : "") + std::to_string((int)c);
    return o + "]";
}

static std::ostream &stream(int s) { return s == 1 ? std::cout : s == 2 ? std::cerr : *s_other; }

// Runs `f` and returns what appeared on each stream.
template <typename F>
static std::string captured(F &&f)
{
    for (int fd = 1; fd <= 2; ++fd)
    {
        if (::ftruncate(s_file[fd], 0) != 0) _exit(3);
        ::lseek(s_file[fd], 0, SEEK_SET);
        ::dup2(s_file[fd], fd);
    }
    s_other->str("");
    f();
    std::cout.flush();
    std::cerr.flush();
    std::string o = "[";
    for (int fd = 1; fd <= 2; ++fd)
    {
        ::dup2(s_real[fd], fd);
        std::string data((std::size_t)::lseek(s_file[fd], 0, SEEK_END), '\0');
        if (::pread(s_file[fd], data.data(), data.size(), 0) != (ssize_t)data.size()) _exit(3);
        o += codes(data) + ",";
    }
    return o + codes(s_other->str()) + "]";
}

// ---------------------------------------------------------------- stylers from lists of modifiers
struct Mod { int kind, a, b; };
// 0: style, 1: color, 2: standard color, 3: cursor, 4: direction
static fl::Style const s_styles[] {fl::Style::Default, fl::Style::Bold, fl::Style::Dim, fl::Style::Italic, fl::Style::Underline, fl::Style::Blink, fl::Style::Strike};
static char const *const s_style_names[] {"default", "bold", "dim", "italic", "underline", "blink", "strike"};
static fl::Cursor::Direction const s_directions[] {fl::Cursor::Up, fl::Cursor::Down, fl::Cursor::Forward, fl::Cursor::Backward};
static char const *const s_direction_names[] {"up", "down", "forward", "backward"};

template <typename... Args>
static std::unique_ptr<fl::Styler> make(std::vector<Mod> const &mods, Args... args)
{
    constexpr std::size_t n = sizeof...(Args);
    if constexpr (n > 0)
    {
        if (mods.size() == n) return std::make_unique<fl::Styler>(args...);
    }
    if constexpr (n < 4)
    {
        Mod const &m = mods[n];
        if (m.kind == 0) return make(mods, args..., s_styles[m.a]);
        if (m.kind == 1) return make(mods, args..., fl::Color((std::uint8_t)m.a, m.b ? fl::Color::Background : fl::Color::Foreground));
        if (m.kind == 3) return make(mods, args..., fl::Cursor(s_directions[m.a], (std::uint8_t)m.b));
        if constexpr (n < 2)
        {
            if (m.kind == 2) return make(mods, args..., (fl::Color::StandardColor)m.a);
            if (m.kind == 4) return make(mods, args..., s_directions[m.a]);
        }
    }
    return nullptr;
}

static std::string list(std::vector<Mod> const &mods)
{
    std::string o = "[";
    for (auto const &m : mods)
    {
        if (o.size() > 1) o += ",";
        if (m.kind == 0) o += "[\"style\",\"" + std::string(s_style_names[m.a]) + "\"]";
        else if (m.kind == 1) o += std::string(m.b ? "[\"bg\"," : "[\"fg\",") + std::to_string(m.a) + "]";
        else if (m.kind == 2) o += "[\"fg\"," + std::to_string(m.a) + "]";
        else if (m.kind == 3) o += "[\"" + std::string(s_direction_names[m.a]) + "\"," + std::to_string(m.b) + "]";
        else o += "[\"" + std::string(s_direction_names[m.a]) + "\",1]";
    }
    return o + "]";
}

static std::vector<Mod> some_mods(Rng &rng)
{
    std::vector<Mod> mods;
    for (std::size_t n = 1 + rng.below(4); n > 0; --n)
    {
        Mod m {(int)rng.below(5), 0, 0};
        if (mods.size() >= 2 && (m.kind == 2 || m.kind == 4)) m.kind = (int)rng.below(2);
        if (m.kind == 0) m.a = (int)rng.below(7);
        else if (m.kind == 1) { m.a = rng.chance(1, 2) ? (int)rng.below(18) : (int)rng.below(256); m.b = (int)rng.below(2); }
        else if (m.kind == 2) m.a = (int)rng.below(8);
        else if (m.kind == 3) { m.a = (int)rng.below(4); m.b = rng.chance(1, 2) ? (int)rng.below(12) : (int)rng.below(256); }
        else m.a = (int)rng.below(4);
        mods.push_back(m);
    }
    return mods;
}

// ---------------------------------------------------------------- what the program prints
struct Item { bool number; int n; std::string text; };
static std::vector<Item> some_items(Rng &rng)
{
    std::vector<Item> items;
    for (std::size_t n = rng.below(4); n > 0; --n)
    {
        Item i {rng.chance(1, 2), 0, {}};
        if (i.number) i.n = rng.chance(1, 2) ? (int)rng.below(20) : (int)rng.below(1000000);
        else
        {
            for (std::size_t k = rng.below(6); k > 0; --k) i.text += rng.chance(1, 12) ? '\n' : (char)(' ' + (int)rng.below(95));
        }
        items.push_back(i);
    }
    return items;
}
static std::string item(Item const &i)
{
    return i.number ? "[\"number\"," + std::to_string(i.n) + "]" : "[\"text\"," + codes(i.text) + "]";
}
static std::string list(std::vector<Item> const &items)
{
    std::string o = "[";
    for (auto const &i : items) o += (o.size() > 1 ? "," : "") + item(i);
    return o + "]";
}
static void print(std::ostream &o, std::vector<Item> const &items)
{
    for (auto const &i : items)
    {
        if (i.number) o << i.n;
        else o << i.text;
    }
}

// ---------------------------------------------------------------- assertions
static int g_called, g_evaluated;
static off_t g_called_at;
static void handler()
{
    ++g_called;
    g_called_at = ::lseek(2, 0, SEEK_CUR);
}
static bool condition(bool b)
{
    ++g_evaluated;
    return b;
}

static void some_assertion(Rng &rng)
{
    bool const holds = rng.chance(1, 6);
    int const number = rng.chance(1, 2) ? (int)rng.below(10) : (int)rng.below(100000);
    std::string text;
    for (std::size_t k = 1 + rng.below(5); k > 0; --k) text += (char)(rng.chance(1, 10) ? '{' : 'a' + (int)rng.below(26));
    Item const n {true, number, {}}, t {false, 0, text};
    int const more = number + 1;
    int site = (int)rng.below(7);
    std::string expression, message, captures;
    unsigned line = 0;
    g_called = g_evaluated = 0;
    g_called_at = -1;
    auto name = [](std::string_view s, Item const &i) { return "[" + codes(s) + "," + item(i) + "]"; };
    begin(Ev("assert").i("site", site));
    std::string out = captured([&]() {
        switch (site)
        {
            case 0:
                expression = "condition(holds)";
                line = __LINE__ + 1;
                FLY_ASSERT_IMPL(handler, condition(holds));
                break;
            case 1:
                expression = "condition(holds) && true";
                message = "with a {} message";
                line = __LINE__ + 1;
                FLY_ASSERT_IMPL(handler, condition(holds) && true, "with a {} message");
                break;
            case 2:
                expression = "condition(holds)";
                captures = name("number", n);
                line = __LINE__ + 1;
                FLY_ASSERT_IMPL(handler, condition(holds), number);
                break;
            case 3:
                expression = "condition(holds)";
                captures = name("text", t) + "," + name("number", n);
                line = __LINE__ + 1;
                FLY_ASSERT_IMPL(handler, condition(holds), text, number);
                break;
            case 4:
                expression = "!(!condition(holds) || \"x\"[0] == 'y')";
                message = "m";
                captures = name("number", n) + "," + name("text", t) + "," + name("number", n);
                line = __LINE__ + 1;
                FLY_ASSERT_IMPL(handler, !(!condition(holds) || "x"[0] == 'y'), "m", number, text, number);
                break;
            case 5:
                expression = "(condition(holds))";
                captures = name("number", n) + "," + name("more", Item {true, number + 1, {}});
                line = __LINE__ + 1;
                FLY_ASSERT_IMPL(handler, (condition(holds)), number, more);
                break;
            case 6:
                expression = "condition(holds)";
                message = "two lines\nof text";
                captures = name("text", t);
                line = __LINE__ + 1;
                FLY_ASSERT_IMPL(handler, condition(holds), "two lines\nof text", text);
                break;
        }
        if (g_called == 1 && g_called_at != ::lseek(2, 0, SEEK_CUR)) g_called = -1;
    });
    emit(Ev("assert").b("holds", holds).bytes("expression", expression).bytes("file", __FILE__).bytes("function", "operator()").i("line", line)
        .bytes("message", message).raw("captures", "[" + captures + "]").i("evaluated", g_evaluated).i("called", g_called).raw("out", out));
}

// ---------------------------------------------------------------- console loggers
static void some_lines(Rng &rng)
{
    auto logger = fl::create_console_logger("console", std::make_shared<fl::LoggerConfig>());
    if (!logger) { emit(Ev("no logger")); return; }
    ::setenv("TZ", "XYZ-05:30", 1);
    ::tzset();
    for (std::size_t k = 1 + rng.below(4); k > 0; --k)
    {
        static char const *const levels[] {"debug", "info", "warn", "error"};
        int level = (int)rng.below(4);
        long days = 10 + (long)rng.below(30000), seconds = (long)rng.below(86400);
        g_clock.tv_sec = days * 86400 + seconds;
        g_clock.tv_nsec = (long)rng.below(1000000000);
        std::string message = rng.chance(1, 3) ? "%d {}" : "";
        for (std::size_t n = rng.below(30); n > 0; --n) message += (char)(rng.chance(1, 20) ? '\n' : ' ' + (int)rng.below(95));
        std::string file = rng.chance(1, 6) ? "" : "a/file.cpp", function = rng.chance(1, 6) ? "" : "function";
        std::uint32_t line = (std::uint32_t)rng.below(100000);
        begin(Ev("line"));
        std::string out = captured([&]() {
            g_fake_clock = true;
            fl::Trace t {file, function, line};
            if (level == 0) logger->debug(std::move(t), "{}", message);
            else if (level == 1) logger->info(std::move(t), "{}", message);
            else if (level == 2) logger->warn(std::move(t), "{}", message);
            else logger->error(std::move(t), "{}", message);
            g_fake_clock = false;
        });
        emit(Ev("line").s("level", levels[level]).raw("when", "[" + std::to_string(days) + "," + std::to_string(seconds) + ",330]")
            .bytes("file", file).bytes("function", function).i("line", line).bytes("message", message).raw("out", out));
    }
}

static void scenario(Rng &rng)
{
    std::ostringstream other;
    s_other = &other;
    for (int s = 1; s <= 2; ++s)
    {
        stream(s) << std::dec << std::noshowbase << std::noshowpos << std::setw(0) << std::setfill(' ');
        stream(s).unsetf(std::ios_base::adjustfield);
    }
    std::vector<std::unique_ptr<fl::Styler>> open;
    bool waiting[4] {};
    for (std::size_t step = 3 + rng.below(12); step > 0; --step)
    {
        std::uint64_t what = rng.below(20);
        if (what < 4)
        {
            int s = 1 + (int)rng.below(3);
            int base = rng.chance(1, 2) ? 10 : rng.chance(1, 2) ? 16 : 8, width = rng.chance(1, 2) ? 0 : (int)rng.below(9);
            bool prefix = rng.chance(1, 3), plus = rng.chance(1, 3), left = rng.chance(1, 4);
            char fill = rng.chance(1, 2) ? ' ' : "0*1"[rng.below(3)];
            std::string out = captured([&]() {
                std::ostream &o = stream(s);
                o << std::setbase(base) << (prefix ? std::showbase : std::noshowbase) << (plus ? std::showpos : std::noshowpos) << std::setw(width)
                  << std::setfill(fill) << (left ? std::left : std::right);
            });
            waiting[s] = width != 0;
            emit(Ev("format").i("stream", s).i("base", base).b("prefix", prefix).b("plus", plus).i("width", width).i("fill", fill).b("left", left).raw("out", out));
        }
        else if (what < 14)
        {
            int s = rng.chance(1, 8) ? 3 : 1 + (int)rng.below(2);
            auto items = some_items(rng);
            std::vector<Mod> mods;
            bool keep = false;
            if (rng.chance(4, 5))
            {
                mods = some_mods(rng);
                keep = open.size() < 3 && rng.chance(1, 3);
            }
            begin(Ev("print").i("stream", s));
            std::string out = captured([&]() {
                std::unique_ptr<fl::Styler> styler;
                if (!mods.empty())
                {
                    styler = make(mods);
                    if (items.empty()) stream(s) << *styler;
                    else if (items[0].number) stream(s) << *styler << items[0].n;
                    else stream(s) << *styler << items[0].text;
                    std::vector<Item> rest(items.begin() + (items.empty() ? 0 : 1), items.end());
                    print(stream(s), rest);
                    if (keep) open.push_back(std::move(styler));
                    else styler.reset();
                }
                else print(stream(s), items);
            });
            if (!items.empty()) waiting[s] = false;
            emit(Ev("print").i("stream", s).raw("mods", list(mods)).b("keep", keep).raw("items", list(items)).raw("out", out));
        }
        else if (what < 16)
        {
            if (open.empty()) continue;
            begin(Ev("close"));
            std::string out = captured([&]() { open.pop_back(); });
            emit(Ev("close").raw("out", out));
        }
        else if (open.empty() && !waiting[1] && !waiting[2])
        {
            if (what < 18) some_lines(rng);
            else some_assertion(rng);
        }
    }
    while (!open.empty())
    {
        std::string out = captured([&]() { open.pop_back(); });
        emit(Ev("close").raw("out", out));
    }
}

int main(int argc, char **argv)
{
    for (int fd = 1; fd <= 2; ++fd)
    {
        s_real[fd] = ::fcntl(fd, F_DUPFD_CLOEXEC, 100);
        s_file[fd] = ::memfd_create("terminal", MFD_CLOEXEC);
    }
    return main_loop(argc, argv, [](long, Rng &rng) { scenario(rng); });
}
