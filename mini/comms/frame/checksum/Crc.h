#pragma once
#include <cstdint>
#include <cstddef>
namespace comms { namespace frame { namespace checksum {
template <typename T, T TPoly, T TInit, T TXor, bool TReflect, bool TReflectOut>
class Crc
{
public:
    template <typename TIter> T operator()(TIter& iter, std::size_t len) const
    {
        T r = TInit;
        for (std::size_t i = 0; i < len; ++i) {
            auto b = static_cast<std::uint8_t>(*iter);
            ++iter;
            if (TReflect) { b = static_cast<std::uint8_t>(reflect(b, 8U)); }
            r = static_cast<T>(r ^ (static_cast<T>(b) << (sizeof(T) * 8U - 8U)));
            for (unsigned k = 0; k < 8U; ++k) {
                bool top = ((r >> (sizeof(T) * 8U - 1U)) & 1U) != 0U;
                r = static_cast<T>(r << 1U);
                if (top) { r = static_cast<T>(r ^ TPoly); }
            }
        }
        if (TReflectOut) { r = static_cast<T>(reflect(r, sizeof(T) * 8U)); }
        return static_cast<T>(r ^ TXor);
    }
private:
    static std::uint64_t reflect(std::uint64_t v, std::size_t n)
    {
        std::uint64_t r = 0;
        for (std::size_t i = 0; i < n; ++i) { if ((v >> i) & 1U) { r |= std::uint64_t(1) << (n - 1U - i); } }
        return r;
    }
};
using Crc_CCITT = Crc<std::uint16_t, 0x1021, 0xffff, 0, false, false>;
using Crc_16 = Crc<std::uint16_t, 0x8005, 0, 0, true, true>;
using Crc_32 = Crc<std::uint32_t, 0x04C11DB7, 0xffffffffU, 0xffffffffU, true, true>;
} } }
