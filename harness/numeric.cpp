// Evaluates integer literals (a table which was generated, with what the compiler said) and swaps bytes.
#include "digits.hpp"

#include "fly/types/numeric/endian.hpp"
#include "fly/types/numeric/literals.hpp"

#include <type_traits>

using namespace vt;
using namespace fly::literals::numeric_literals;

template <typename T, typename L>
static Ev value(char const *text, L v)
{
    bool same = std::is_same_v<T, L>;
    return Ev("literal").bytes("text", text).i("bits", 8 * sizeof(T)).b("signed", std::is_signed_v<T>).b("ok", true).b("neg", v < 0 || !same).seq("value", magnitude(v));
}
template <typename T>
static Ev refused(char const *text)
{
    return Ev("literal").bytes("text", text).i("bits", 8 * sizeof(T)).b("signed", std::is_signed_v<T>).b("ok", false).b("neg", false).seq("value", std::vector<int>());
}
static std::vector<std::function<Ev()>> const table = {
#include "literals.inc"
};

template <typename T>
static void swap(Rng &rng)
{
    T v {};
    unsigned char raw[sizeof(T)];
    for (auto &c : raw) c = rng.chance(1, 3) ? (rng.chance(1, 2) ? 0 : 255) : (unsigned char)rng.next();
    std::memcpy(&v, raw, sizeof(T));
    auto memory = [](T x) { std::vector<int> b; unsigned char m[sizeof(T)]; std::memcpy(m, &x, sizeof(T)); for (auto c : m) b.push_back(c); return b; };
    constexpr auto other = std::endian::native == std::endian::little ? std::endian::big : std::endian::little;
    emit(Ev("swap").seq("bytes", memory(v)).seq("out", memory(fly::endian_swap(v))).seq("twice", memory(fly::endian_swap(fly::endian_swap(v))))
             .seq("native", memory(fly::endian_swap_if_non_native<std::endian::native>(v))).seq("other", memory(fly::endian_swap_if_non_native<other>(v))));
}

int main(int argc, char **argv)
{
    return main_loop(argc, argv, [](long id, Rng &rng) {
        for (std::size_t k = 0; k < 10; ++k)
        {
            std::size_t at = (std::size_t)id * 10 + k;
            if (at < table.size()) emit(table[at]());
        }
        swap<std::int8_t>(rng); swap<std::uint8_t>(rng); swap<std::int16_t>(rng); swap<std::uint16_t>(rng); swap<std::int32_t>(rng);
        swap<std::uint32_t>(rng); swap<std::int64_t>(rng); swap<std::uint64_t>(rng);
    });
}
