// Full control over a std::mt19937_64: the next draws of uniform_real_distribution<double>(0,1) are the given numbers.
#pragma once
#include "mc.hpp"

#include <cmath>
#include <random>

namespace draws {
    inline std::uint64_t untemper(std::uint64_t y) {
        y ^= y >> 43U;
        y ^= (y << 37U) & 0xFFF7EEE000000000ULL;
        std::uint64_t z = y;
        for (int i = 0; i < 8; ++i) {
            z = y ^ ((z << 17U) & 0x71D67FFFEDA60000ULL);
        }
        y = z;
        for (int i = 0; i < 8; ++i) {
            z = y ^ ((z >> 29U) & 0x5555555555555555ULL);
        }
        return z;
    }
    inline std::uint64_t word(double u) {
        if (u <= 0) {
            return 0;
        }
        if (u >= 1) {
            return ~0ULL; // the largest draw below one
        }
        return static_cast<std::uint64_t>(std::ldexp(u, 53)) << 11U;
    }
    // the generator returns these draws in turn; draws beyond the list are `rest`
    inline void set(std::mt19937_64& g, const std::vector<double>& u, double rest = 0.5) {
        std::stringstream ss;
        for (std::size_t i = 0; i < 312; ++i) {
            ss << untemper(word(i < u.size() ? u[i] : rest)) << ' ';
        }
        ss << 0;
        ss >> g;
    }
    // number of words used since set()
    inline std::size_t used(const std::mt19937_64& g) {
        std::stringstream ss;
        ss << g;
        std::uint64_t x = 0;
        for (int i = 0; i < 312; ++i) {
            ss >> x;
        }
        ss >> x;
        return x;
    }
    inline bool selftest() {
        std::mt19937_64 g;
        set(g, {0, 0.25, 0.75, 1, 0.3});
        std::uniform_real_distribution<double> d(0., 1.);
        const double a[] = {d(g), d(g), d(g), d(g), d(g)};
        return a[0] == 0 && a[1] == 0.25 && a[2] == 0.75 && a[3] < 1 && a[3] > 0.9999999999999 && std::abs(a[4] - 0.3) < 1e-15;
    }
} // namespace draws
