// C14: the type-specific sorters (counting, ska, spread) order every representable value correctly.
// GROUP selects the sorter family and the key types of this translation unit.
#include "core.hpp"
#include <algorithm>
#include <array>
#include <cstring>
#include <deque>
#include <forward_list>
#include <functional>
#include <limits>
#include <list>
#include <string>
#include <tuple>
#include <vector>
#if __cplusplus >= 201703L
#  include <string_view>
#endif
#include <cpp-sort/sorters/counting_sorter.h>
#include <cpp-sort/sorters/ska_sorter.h>
#include <cpp-sort/sorters/spread_sorter.h>
using namespace mc;

// an allocation of more than 1 GiB fails (ranges of counts that can not reasonably be allocated)
static u64 news = 0;
void* operator new(std::size_t n) { ++news; if (n > (std::size_t(1) << 30)) throw std::bad_alloc(); void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }

using i128 = __int128; using u128 = unsigned __int128;
template<typename T> struct bits_of { static constexpr int v = int(sizeof(T)) * 8; };
template<typename T> constexpr bool is_s() { return T(-1) < T(0); }
template<typename T> constexpr T tmin() { return is_s<T>() ? T(u128(1) << (sizeof(T) * 8 - 1)) : T(0); }
template<typename T> constexpr T tmax() { return T(~tmin<T>()); }
template<> constexpr bool tmin<bool>() { return false; }
template<> constexpr bool tmax<bool>() { return true; }
// T from its rank in the order of the type (0 = smallest), modulo 2^bits
template<typename T> static T from_rank(u128 r) { return T(r + u128(is_s<T>() ? u128(1) << (sizeof(T) * 8 - 1) : 0)); }
template<> bool from_rank<bool>(u128 r) { return bool(r & 1); }

// ---- floats: rank of every non-NaN bit pattern in the order of the values
template<typename F, typename U> static F float_from_rank(u128 r128) {
    constexpr int B = sizeof(U) * 8;
    constexpr U inf = B == 32 ? U(0x7f800000u) : U(0x7ff0000000000000ull);
    constexpr u128 half = u128(inf) + 1;                 // number of non-negative patterns (0 .. inf)
    u128 r = r128 % (2 * half);
    U bits = r < half ? U(U(1) << (B - 1)) | U(half - 1 - r) : U(r - half);
    F f; std::memcpy(&f, &bits, sizeof f); return f;
}
template<> float from_rank<float>(u128 r) { return float_from_rank<float, std::uint32_t>(r); }
template<> double from_rank<double>(u128 r) { return float_from_rank<double, std::uint64_t>(r); }
template<typename T> static u128 rank_count() { return sizeof(T) == 16 ? u128(0) : u128(1) << (sizeof(T) * 8); }   // 0 = 2^128
template<> u128 rank_count<float>() { return 2 * (u128(0x7f800000u) + 1); }
template<> u128 rank_count<double>() { return 2 * (u128(0x7ff0000000000000ull) + 1); }
template<> u128 rank_count<bool>() { return 2; }

template<typename T> static u128 rank_of(T v) { return u128(v) - u128(is_s<T>() ? u128(1) << (sizeof(T) * 8 - 1) : 0) & (sizeof(T) == 16 ? ~u128(0) : (u128(1) << (sizeof(T) * 8 % 128)) - 1); }
static u128 rank_of(float f) { std::uint32_t b; std::memcpy(&b, &f, 4); const u128 half = u128(0x7f800000u) + 1; return b >> 31 ? half - 1 - (b & 0x7fffffffu) : half + b; }
static u128 rank_of(double f) { std::uint64_t b; std::memcpy(&b, &f, 8); const u128 half = u128(0x7ff0000000000000ull) + 1; return b >> 63 ? half - 1 - (b & 0x7fffffffffffffffull) : half + b; }
// ---- oracle
template<typename T> struct exact { static bool less(const T& a, const T& b) { return a < b; } };   // total order that tells everything apart
template<typename F> struct exact_f { static bool less(F a, F b) { return std::memcmp(&a, &b, sizeof a) < 0; } };
template<> struct exact<float>: exact_f<float> {};
template<> struct exact<double>: exact_f<double> {};
template<typename S> struct exact<std::pair<double, S>> { static bool less(const std::pair<double, S>& a, const std::pair<double, S>& b) {
    int c = std::memcmp(&a.first, &b.first, 8); return c ? c < 0 : a.second < b.second; } };
template<typename S> struct exact<std::pair<float, S>> { static bool less(const std::pair<float, S>& a, const std::pair<float, S>& b) {
    int c = std::memcmp(&a.first, &b.first, 4); return c ? c < 0 : a.second < b.second; } };
template<std::size_t N> struct exact<std::array<double, N>> { static bool less(const std::array<double, N>& a, const std::array<double, N>& b) { return std::memcmp(a.data(), b.data(), sizeof a) < 0; } };

template<typename T> struct Canary { T* p; };
static int x_elems;
template<typename T, typename Cmp>
static void judge(const char* what, std::vector<T> before, std::vector<T> after, Cmp cmp) {
    for (std::size_t i = 1; i < after.size(); ++i)
        if (cmp(after[i], after[i - 1])) fail("%s: not ordered at position %zu of %zu", what, i, after.size());
    std::sort(before.begin(), before.end(), exact<T>::less); std::sort(after.begin(), after.end(), exact<T>::less);
    for (std::size_t i = 0; i < after.size(); ++i)
        if (exact<T>::less(before[i], after[i]) || exact<T>::less(after[i], before[i])) fail("%s: the elements changed (%zu elements)", what, after.size());
}
template<typename T> static void account(const std::vector<T>& v) {
    bool nt = !std::is_sorted(v.begin(), v.end());
    u64 h = v.size(); for (std::size_t i = 0; i < v.size() && i < 64; ++i) { unsigned char b[sizeof(T)]; if (std::is_arithmetic<T>::value) { T e = v[i]; std::memcpy(b, static_cast<const void*>(&e), sizeof(T)); for (auto c: b) h = h * 131 + c; } else h = h * 131 + u64(i + 1 < v.size() ? v[i] < v[i + 1] : 2); }
    note_behaviour(h); count_eval(nt, v.size()); sh().extra[x_elems] = sh().extra[x_elems] + v.size();
}

template<typename T> struct Rec { T key; int id; };
#if FAM == 1
#  define SORTER cppsort::ska_sort
#elif FAM == 2
#  define SORTER cppsort::spread_sort
#endif
#if FAM == 1 || FAM == 2
// plain call on an exactly sized block (pointers), through a projection, and on a deque for the small ones
template<typename T> static void run_one(const char* what, const std::vector<T>& v, bool rev = false) {
    account(v);
    (void)rev;
    {
        std::size_t n = v.size();
        T* raw = new T[n + (n == 0)];
        std::copy(v.begin(), v.end(), raw);
#if FAM == 2 && defined(REVERSIBLE)
        if (rev) SORTER(raw, raw + n, std::greater<>{}); else
#endif
        SORTER(raw, raw + n);
        std::vector<T> out(raw, raw + n);
        delete[] raw;
#if FAM == 2 && defined(REVERSIBLE)
        if (rev) judge(what, v, out, std::greater<>{}); else
#endif
        judge(what, v, out, std::less<>{});
    }
    {
        std::vector<Rec<T>> r; for (std::size_t i = 0; i < v.size(); ++i) r.push_back(Rec<T>{v[i], int(i)});
#if FAM == 2 && defined(REVERSIBLE)
        if (rev) SORTER(r, std::greater<>{}, &Rec<T>::key); else
#endif
        SORTER(r, &Rec<T>::key);
        std::vector<char> seen(v.size());
        for (std::size_t i = 0; i < r.size(); ++i) {
            if (i && (rev ? r[i - 1].key < r[i].key : r[i].key < r[i - 1].key)) fail("%s through a projection: not ordered at position %zu of %zu", what, i, v.size());
            int id = r[i].id;
            if (id < 0 || std::size_t(id) >= v.size() || seen[std::size_t(id)]) fail("%s through a projection: an element was lost or duplicated", what);
            seen[std::size_t(id)] = 1;
            if (exact<T>::less(v[std::size_t(id)], r[i].key) || exact<T>::less(r[i].key, v[std::size_t(id)])) fail("%s through a projection: an element changed", what);
        }
    }
    if (v.size() <= 300) {
        std::deque<T> d(v.begin(), v.end());
#if FAM == 2 && defined(REVERSIBLE)
        if (rev) { SORTER(d.begin(), d.end(), std::greater<>{}); judge(what, v, std::vector<T>(d.begin(), d.end()), std::greater<>{}); } else
#endif
        { SORTER(d.begin(), d.end()); judge(what, v, std::vector<T>(d.begin(), d.end()), std::less<>{}); }
    }
}
#endif

static const int MULS[] = {1, 255, 37, 91, 129, 3};
static const int SIZES[] = {90, 127, 128, 129, 200, 256, 300, 700, 1000, 1023, 1024, 1025, 2600};

#if FAM == 1
// (1) one byte position takes every value, the bytes above are constant, the ones below constant or varying
template<typename T> static void reg_bytes(const std::string& nm) {
    constexpr int B = sizeof(T);
    const int pats[4] = {0x00, 0x7f, 0x80, 0xff};
    const u64 nm_ = sizeof(MULS) / sizeof(int), ns = sizeof(SIZES) / sizeof(int);
    add_job(nm + "/bytes", u64(B) * nm_ * ns * 4 * 3, [=](u64 i) {
        int d = int(i % B); i /= B; int m = MULS[i % nm_]; i /= nm_; int n = SIZES[i % ns]; i /= ns; int pat = pats[i % 4]; int suf = int(i / 4);
        std::vector<T> v;
        for (int k = 0; k < n; ++k) {
            u128 x = 0;
            for (int b = 0; b < B; ++b) {
                int byte = b < d ? pat : b == d ? (k * m) & 255 : suf == 0 ? 0 : suf == 1 ? (k * 31 + b) & 255 : ((k / 128) + b) & 255;
                x = x << 8 | u128(byte);
            }
            v.push_back(from_rank<T>(x));
        }
        desc().text = "depth " + std::to_string(d) + " multiplier " + std::to_string(m) + " n " + std::to_string(n) + " prefix " + std::to_string(pat) + " suffix " + std::to_string(suf);
        run_one(nm.c_str(), v);
    });
    // (2) every pair of byte values at the first and at the last position, in two proportions
    add_job(nm + "/byte-pairs", 2 * 256, [=](u64 i) {
        int d = i & 1 ? B - 1 : 0; int a = int(i >> 1);
        for (int b = 0; b < 256; ++b) {
            // quick tier, wide types: partners that differ in the lowest or the highest bit, and the extreme ones
            if (!thorough() && B > 2 && b != (a ^ 1) && b != (a ^ 128) && b != 0 && b != 255) continue;
            int q = (a + b) % 5 ? 2 : 127;
            std::vector<T> v;
            for (int k = 0; k < 130; ++k) v.push_back(from_rank<T>(u128(k % q ? a : b) << (8 * (B - 1 - d))));
            desc().text = "bytes " + std::to_string(a) + "," + std::to_string(b) + " depth " + std::to_string(d);
            account(v);
            auto w = v; SORTER(w); judge(nm.c_str(), v, w, std::less<>{});
        }
    });
    // (3) two byte positions vary at once: k values of the upper one, every value of the lower one
    if (B > 1) add_job(nm + "/two-bytes", u64(B * (B - 1) / 2) * 4 * 3, [=](u64 i) {
        int k1 = (int[]){2, 3, 8, 20}[i & 3]; i >>= 2; int m = (int[]){1, 37, 255}[i % 3]; i /= 3;
        int d1 = 0, d2 = 1; for (u64 c = 0; c < i; ++c) if (++d2 == B) { ++d1; d2 = d1 + 1; }
        std::vector<T> v;
        for (int k = 0; k < k1 * 260; ++k) {
            u128 x = u128((k * m) % k1 * (k1 == 20 ? 13 : 127) & 255) << (8 * (B - 1 - d1)) | u128((k * m / k1) & 255) << (8 * (B - 1 - d2));
            v.push_back(from_rank<T>(x));
        }
        desc().text = "depths " + std::to_string(d1) + "," + std::to_string(d2) + " values " + std::to_string(k1);
        run_one(nm.c_str(), v);
    });
}
// (4) every value of a 16-bit type, in several orders
template<typename T> static void reg_all16(const std::string& nm) {
    add_job(nm + "/all16", 12, [=](u64 i) {
        static const u32 mul[] = {1, 65535, 257, 12345, 40503, 255, 32767, 3, 769, 21845, 65521, 4097};
        std::vector<T> v; for (u32 k = 0; k < 65536; ++k) v.push_back(from_rank<T>((k * mul[i]) & 0xffff));
        run_one(nm.c_str(), v);
    }, 60);
}
#endif
// (5) every subset of an alphabet of boundary values, the values in several orders
template<typename T> static std::vector<T> boundary_values() {
    std::vector<T> v;
    u128 c = rank_count<T>(), h = c ? c / 2 : u128(1) << 127;
    for (u128 r : {u128(0), u128(1), h - 2, h - 1, h, h + 1, c - 2, c - 1}) v.push_back(from_rank<T>(r));
    return v;
}
#if FAM == 1 || FAM == 2
template<typename T> static void reg_subsets(const std::string& nm, std::vector<T> alpha, bool reversible = false) {
    const u64 A = alpha.size();
    const int sizes[] = {5, 128, 131, 1000, 1030};
    add_job(nm + "/subsets", ((1ull << A) - 1) * 5 * 2, [=](u64 i) {
        int n = sizes[i % 5]; i /= 5; int ord = int(i & 1); i >>= 1;
        std::vector<T> sub; for (u64 k = 0; k < A; ++k) if ((i + 1) >> k & 1) sub.push_back(alpha[k]);
        if (ord) std::reverse(sub.begin(), sub.end());
        std::vector<T> v; for (int k = 0; k < n; ++k) v.push_back(sub[std::size_t(k * 7 + k / 11) % sub.size()]);
        desc().text = "subset " + std::to_string(i + 1) + " n " + std::to_string(n);
        run_one(nm.c_str(), v, reversible && ord && n != 131);
    });
}
// (6) ranges of every magnitude at several places of the domain
template<typename T> static void reg_ranges(const std::string& nm) {
    constexpr int B = bits_of<T>::v > 64 ? 127 : std::is_same<T, bool>::value ? 1 : bits_of<T>::v;
    const int sizes[] = {1000, 2500, 999, 1001};
    const bool t = thorough(); const u64 NS = t ? 4 : FAM == 1 ? 1 : 2, NP = 16;
    add_job(nm + "/ranges", u64(B) * (t ? 3 : 1) * NP * NS * 4, [=](u64 i) {
        int bits = int(i % B) + 1; i /= B; int place = int(i % NP); i /= NP; int n = sizes[i % NS]; i /= NS; int dist = int(i & 3); i >>= 2;
        int adj = t ? int(i) - 1 : (bits + place + dist) % 3 - 1;
        u128 c = rank_count<T>(), R = (u128(1) << bits) + u128(adj);
        if (R < 2) R = 2;
        if (c && R > c) R = c;
        const u128 top = c ? c - R : ~u128(0) - R + 1;      // largest possible start of a range of R values
        u128 h = c ? c / 2 : u128(1) << 127, q = h / 2;
        const u128 at[NP] = {0, top, h - R / 2, h, h >= R ? h - R : 0, h > 10 ? h - 1 - R / 3 : 0, q, h + q, q - R / 2, h + q / 2,
                             (h / 3 * 2) & ~u128(0xffff), (h / 5) & ~u128(0xffffffffu), h - 1 - (((h / 5) & ~u128(0xffffffffu)) + R), (h + h / 7) & ~u128(0xffffffffu), rank_of(T(1)), rank_of(T(-1)) - (R < 1000000 ? R / 2 : 0)};
        u128 base = at[place]; if (base > top) base = top;
        std::vector<T> v;
        for (int k = 0; k < n; ++k) {
            u128 x;
            switch (dist) {
                case 0: x = u128(k) * 0x9e3779b97f4a7c15ull + (u128(k) * 0x85ebca6b << 64); x %= R; break;     // spread over the whole range
                case 1: x = k % 2 ? R - 1 - u128(k % 7) % R : u128(k % 5) % R; break;                            // two clusters at the ends
                case 2: x = R / u128(n) * u128((k * 631) % n); break;                                            // equidistant, permuted
                default: x = k % 100 == 0 ? R - 1 - u128(k / 100) % R : (u128(k) * 7919) % (R < 50 ? R : 50); break;  // dense cluster, some far away
            }
            v.push_back(from_rank<T>(base + x));
        }
        desc().text = "range 2^" + std::to_string(bits) + (adj < 0 ? "-1" : adj > 0 ? "+1" : "") + " place " + std::to_string(place) + " n " + std::to_string(n) + " distribution " + std::to_string(dist);
        run_one(nm.c_str(), v);
    });
}
// (7) collections of more than 2^16 elements: every magnitude that changes the number of bytes involved, four distributions
template<typename T> static void reg_large(const std::string& nm) {
    constexpr int B = bits_of<T>::v;
    static const int widths[] = {1, 7, 8, 15, 16, 17, 24, 31, 32, 48, 63, 64, 100, 127};
    u64 W = 0; while (W < 14 && widths[W] <= B) ++W;
    add_job(nm + "/large", W * 4 * (thorough() ? 3 : 1), [=](u64 i) {
        const int bits = widths[i % W]; i /= W; const int dist = int(i & 3); const int n = (int[]){66003, 131101, 200003}[i >> 2];
        u128 c = rank_count<T>(), R = u128(1) << bits;
        if (c && R > c) R = c;
        const u128 h = c ? c / 2 : u128(1) << 127;
        const u128 base = dist & 1 ? h - R / 2 : bits & 1 ? 0 : (c ? c - R : ~u128(0) - R + 1);
        std::vector<T> v; v.reserve(std::size_t(n));
        for (int k = 0; k < n; ++k) {
            u128 x;
            switch (dist) {
                case 0: x = (u128(k) * 0x9e3779b97f4a7c15ull + (u128(k) * 0x85ebca6b << 64)) % R; break;
                case 1: x = k % 70000 == 1 ? R - 1 : (u128(k) * 7919) % (R < 3 ? R : 3); break;        // nearly everything in one bucket
                case 2: x = R > u128(n) ? R / u128(n) * u128((k * 631ll) % n) : u128(k) % R; break;
                default: x = k % 2 ? R - 1 - u128(k % 300) % R : u128(k % 299) % R; break;
            }
            v.push_back(from_rank<T>(base + x));
        }
        desc().text = "range 2^" + std::to_string(bits) + " n " + std::to_string(n) + " distribution " + std::to_string(dist);
        run_one(nm.c_str(), v);
    }, 60);
}
// ---- strings over an alphabet of critical bytes
template<typename Str> static Str word(const std::vector<int>& alpha, u64 r, int len) {
    Str s; for (int i = 0; i < len; ++i) { s.push_back(typename Str::value_type(alpha[r % alpha.size()])); r /= alpha.size(); } return s;
}
template<typename Str> static Str prefix(int len, int kind) {
    Str s; for (int i = 0; i < len; ++i) s.push_back(typename Str::value_type(kind == 0 ? 'a' : kind == 1 ? 0 : i * 37 + 128)); return s;
}
template<typename Str> static void reg_strings(const std::string& nm, std::vector<int> alpha, bool reversible) {
    const int plens[] = {0, 1, 2, 3, 7, 8, 14, 15, 16, 17, 18, 20, 33, 64};
    // all words of length <= 3 behind a common prefix, each `dup` times
    add_job(nm + "/words", 14 * 3 * 3 * 2, [=](u64 i) {
        int pl = plens[i % 14]; i /= 14; int kind = int(i % 3); i /= 3; int maxlen = int(i % 3) + 1; bool rev = i / 3 & 1;
        if (rev && !reversible) return;
        std::vector<Str> w; u64 c = 1;
        for (int len = 0; len <= maxlen; ++len, c *= alpha.size()) for (u64 r = 0; r < c; ++r) w.push_back(prefix<Str>(pl, kind) + word<Str>(alpha, r, len));
        u64 n = w.size() * (w.size() < 20 ? 150 : w.size() < 100 ? 30 : 5);
        std::vector<Str> v; for (u64 k = 0; k < n; ++k) v.push_back(w[(k * 7919) % w.size()]);
        desc().text = "prefix " + std::to_string(pl) + " kind " + std::to_string(kind) + " words up to " + std::to_string(maxlen);
        run_one(nm.c_str(), v, rev);
    });
    // prefixes of prefixes: x^k y for every k, so that strings stay alike at every depth
    add_job(nm + "/chains", 40 * 2 * 2, [=](u64 i) {
        int maxk = int(i % 40) + 1; i /= 40; int kind = int(i & 1); bool rev = i >> 1;
        if (rev && !reversible) return;
        std::vector<Str> v;
        for (int r = 0; r < 140; ++r) for (int k = (r * 5) % 3; k <= maxk; k += 1 + (r & 3)) { Str s = prefix<Str>(k, kind); int t = r % 4; if (t) s.push_back(typename Str::value_type(alpha[std::size_t(t * 3 + k) % alpha.size()])); v.push_back(s); }
        for (std::size_t k = 0; k < v.size(); ++k) std::swap(v[k], v[(k * 7919) % v.size()]);
        desc().text = "chains up to " + std::to_string(maxk);
        run_one(nm.c_str(), v, rev);
    });
    // long common prefixes, and more than 2^16 strings with one first character
    add_job(nm + "/long-prefix", 9 * 3 * 2, [=](u64 i) {
        int pl = (int[]){127, 128, 255, 256, 257, 511, 513, 1000, 5000}[i % 9]; i /= 9; int kind = int(i % 3); bool rev = i / 3;
        if (rev && !reversible) return;
        std::vector<Str> w; u64 c = 1;
        for (int len = 0; len <= 2; ++len, c *= alpha.size()) for (u64 r = 0; r < c; ++r) w.push_back(prefix<Str>(pl, kind) + word<Str>(alpha, r, len));
        w.push_back(prefix<Str>(pl / 2, kind)), w.push_back(prefix<Str>(pl - 1, kind));
        const u64 n = pl > 600 ? 300 : 1500;
        std::vector<Str> v; for (u64 k = 0; k < n; ++k) v.push_back(w[(k * 7919) % w.size()]);
        desc().text = "prefix " + std::to_string(pl) + " kind " + std::to_string(kind);
        run_one(nm.c_str(), v, rev);
    });
    add_job(nm + "/large", 2 * 2, [=](u64 i) {
        bool rev = i >> 1;
        if (rev && !reversible) return;
        std::vector<Str> v; for (u64 k = 0; k < 66100; ++k) v.push_back(prefix<Str>(i & 1 ? 0 : 1, 0) + word<Str>(alpha, (k * 7919) % 1297, int(k % 5)));
        run_one(nm.c_str(), v, rev);
    }, 60);
    // every byte value at one depth
    add_job(nm + "/all-bytes", 20 * 3 * 2, [=](u64 i) {
        int pl = int(i % 20); i /= 20; int tail = int(i % 3); bool rev = i / 3;
        if (rev && !reversible) return;
        std::vector<Str> v;
        for (int k = 0; k < 1400; ++k) { Str s = prefix<Str>(pl, 0); if (k % 257) s.push_back(typename Str::value_type((k * 91) & 255)); if (tail) s += prefix<Str>((k / 256) % 4, tail); v.push_back(s); }
        desc().text = "all bytes at depth " + std::to_string(pl);
        run_one(nm.c_str(), v, rev);
    });
}
#endif
#if FAM == 1
// ---- compound keys: every subset of the leaves varies over its alphabet, the other leaves are constant
template<typename T, typename Make> static void reg_compound(const std::string& nm, std::vector<int> radix, Make make) {
    int L = int(radix.size());
    add_job(nm + "/leaves", (1ull << L) * 3 * 2, [=](u64 i) {
        u64 mask = i % (1ull << L); i /= 1ull << L; int dup = (int[]){1, 9, 130}[i % 3]; int fixed = int(i / 3);
        u64 prod = 1; for (int l = 0; l < L; ++l) if (mask >> l & 1) prod *= u64(radix[std::size_t(l)]);
        while (prod * u64(dup) > 6000 && dup > 1) dup = (dup + 1) / 2;
        if (prod > 6000) prod = 6000;
        std::vector<T> v;
        for (u64 k = 0; k < prod * u64(dup); ++k) {
            u64 r = (k * 7919 + 13) % prod; std::vector<int> dg(radix.size());
            for (int l = 0; l < L; ++l) if (mask >> l & 1) { dg[std::size_t(l)] = int(r % u64(radix[std::size_t(l)])); r /= u64(radix[std::size_t(l)]); } else dg[std::size_t(l)] = fixed ? radix[std::size_t(l)] - 1 : 0;
            v.push_back(make(dg));
        }
        desc().text = "leaves " + std::to_string(mask) + " repeated " + std::to_string(dup);
        run_one(nm.c_str(), v);
    });
}
template<typename T> static T bv(int d) { static const int ord[] = {4, 0, 7, 3, 5, 1, 6, 2}; static std::vector<T> b = boundary_values<T>(); return b[std::size_t(ord[d])]; }
static std::string sv(int d) { static const std::vector<std::string> s = {"", "a", std::string("a\0", 2), "a\x7f", "a\x80", "b", std::string("\0", 1), std::string(20, 'a'), std::string(20, 'a') + "\xff"}; return s[std::size_t(d)]; }
static double fv(int d) { static const double s[] = {0.0, -0.0, 1.0, -1.0, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), 5e-324, -5e-324}; return s[d]; }
#endif

#if FAM == 0
template<typename C, typename T> static void count_one(const char* what, const std::vector<T>& v, int dir) {
    C c(v.begin(), v.end());
    bool thrown = false, sorted = dir == 0 ? std::is_sorted(v.begin(), v.end()) : std::is_sorted(v.begin(), v.end(), std::greater<>{});
    const u64 n0 = news;
    try {
        if (dir == 0) cppsort::counting_sort(c);
        else if (dir == 1) cppsort::counting_sort(c, std::greater<>{});
#ifdef __cpp_lib_ranges
        else cppsort::counting_sort(c.begin(), c.end(), std::ranges::greater{});
#else
        else cppsort::counting_sort(c.begin(), c.end(), std::greater<>{});
#endif
    } catch (const std::bad_alloc&) { thrown = true; }
    if (sorted && news != n0) fail("%s: memory was allocated to sort %zu elements that are already sorted", what, v.size());
    std::vector<T> out(c.begin(), c.end());
    if (thrown) {
        u128 lo = ~u128(0), hi = 0;
        for (auto x : v) { u128 r = u128(x) + (is_s<T>() ? u128(1) << 127 : 0); lo = r < lo ? r : lo; hi = r > hi ? r : hi; }
        if (hi - lo < (u128(1) << 20)) fail("%s: bad_alloc for a range of only %lu values", what, u64(hi - lo));
        if (out != v) fail("%s: bad_alloc, but the collection was modified", what);
        return;
    }
    auto w = v;
    if (dir == 0) std::sort(w.begin(), w.end()); else std::sort(w.begin(), w.end(), std::greater<>{});
    if (out != w) fail("%s: wrong result (direction %d, %zu elements)", what, dir, v.size());
}
template<typename T> static void count_all(const char* what, const std::vector<T>& v) {
    account(v);
    for (int dir = 0; dir < 3; ++dir) {
        count_one<std::vector<T>>(what, v, dir); count_one<std::list<T>>(what, v, dir); count_one<std::forward_list<T>>(what, v, dir); count_one<std::deque<T>>(what, v, dir);
    }
}
template<typename T> static void reg_counting(const std::string& nm) {
    const u64 ranges[] = {1, 2, 3, 10, 200, 255, 256, 257, 5000};
    const int sizes[] = {2, 3, 17, 100, 1000};
    add_job(nm + "/counting-ranges", 9 * 5 * 5 * 3, [=](u64 i) {
        u128 R = ranges[i % 9]; i /= 9; int place = int(i % 5); i /= 5; int n = sizes[i % 5]; int dist = int(i / 5);
        u128 c = rank_count<T>(), h = c ? c / 2 : u128(1) << 127;
        if (c && R > c) R = c;
        u128 base = place == 0 ? 0 : place == 1 ? c - R : place == 2 ? h - R / 2 : place == 3 ? (c && h + R > c ? c - R : h) : (h >= R ? h - R : 0);
        std::vector<T> v; for (int k = 0; k < n; ++k) v.push_back(from_rank<T>(base + (dist == 0 ? u128(k * 7919) % R : dist == 1 ? (k % 2 ? R - 1 : 0) : R - 1 - u128(k) % R)));
        desc().text = "range " + std::to_string(u64(R)) + " place " + std::to_string(place) + " n " + std::to_string(n);
        count_all(nm.c_str(), v);
    });
    // all words over 3 neighbouring values at the start, the middle and the end of the type
    add_job(nm + "/counting-words", 4 * 8, [=](u64 i) {
        int place = int(i & 3), n = int(i >> 2);
        u128 c = rank_count<T>(), h = c ? c / 2 : u128(1) << 127;
        u64 A = c && c < 3 ? u64(c) : 3, cnt = 1; for (int k = 0; k < n; ++k) cnt *= A;
        u128 base = place == 0 ? 0 : place == 1 ? c - A : place == 2 ? h - 1 : h - (A - 1);
        for (u64 w = 0; w < cnt; ++w) {
            u64 r = w; std::vector<T> v; for (int k = 0; k < n; ++k) { v.push_back(from_rank<T>(base + r % A)); r /= A; }
            desc().text = "word " + std::to_string(w) + " of length " + std::to_string(n) + " place " + std::to_string(place);
            count_all(nm.c_str(), v);
        }
    });
    // more than 2^16 elements, also equal ones
    add_job(nm + "/counting-large", 4 * 2, [=](u64 i) {
        u128 R = (u128[]){1, 2, 300, 70000}[i & 3], c = rank_count<T>();
        if (c && R > c) R = c;
        const u128 base = i >> 2 ? 0 : (c ? c / 2 : u128(1) << 127) - R / 2;
        const int n = i >> 2 ? 66003 : 131101;
        std::vector<T> v; for (int k = 0; k < n; ++k) v.push_back(from_rank<T>(base + (k % 5 ? u128(k) * 7919 % R : R / 2)));
        desc().text = "range " + std::to_string(u64(R)) + " n " + std::to_string(n);
        account(v);
        for (int dir = 0; dir < 3; ++dir) { count_one<std::vector<T>>(nm.c_str(), v, dir); if (dir == 1) count_one<std::forward_list<T>>(nm.c_str(), v, dir); }
    }, 60);
    // pairs of boundary values: sorted, or a failed allocation that leaves them alone
    add_job(nm + "/counting-far", 64, [=](u64 i) {
        auto b = boundary_values<T>();
        std::vector<T> v{b[i & 7], b[i >> 3], b[i & 7]};
        desc().text = "boundary values " + std::to_string(i & 7) + "," + std::to_string(i >> 3);
        count_all(nm.c_str(), v);
    });
}
#endif

template<typename T> static void reg_int(const std::string& nm) {
#if FAM == 0
    reg_counting<T>(nm);
#elif FAM == 1
    reg_bytes<T>(nm);
    if (sizeof(T) == 2) reg_all16<T>(nm);
    reg_subsets<T>(nm, boundary_values<T>());
    if (sizeof(T) > 1) reg_ranges<T>(nm);
    reg_large<T>(nm);
#else
    reg_subsets<T>(nm, boundary_values<T>()); reg_ranges<T>(nm); reg_large<T>(nm);
#endif
}
#define INT(T) reg_int<T>(std::string(FNAME) + " " #T)

MC_JOBS {
    x_elems = extra_id("elements sorted");
#if GROUP == 0
    INT(char); INT(signed char); INT(unsigned char); INT(short); INT(unsigned short); INT(char16_t);
#elif GROUP == 1
    INT(int); INT(unsigned); INT(wchar_t); INT(char32_t);
#elif GROUP == 2
    INT(long); INT(unsigned long); INT(long long); INT(unsigned long long);
#elif GROUP == 3
    INT(i128); INT(u128);
#if FAM == 1
    {
        std::string nm = "ska bool";
        add_job(nm + "/words", 300, [=](u64 i) {
            std::vector<char> proto; bool a[300]; int n = int(i) + 1;
            for (int t = 0; t < 6; ++t) {
                for (int k = 0; k < n; ++k) a[k] = t == 0 ? k & 1 : t == 1 ? k > n / 2 : t == 2 ? k < n / 2 : t == 3 ? true : t == 4 ? k == n - 1 : k != 0;
                int ones = int(std::count(a, a + n, true));
                count_eval(!std::is_sorted(a, a + n), u64(n));
                SORTER(a, a + n);
                if (!std::is_sorted(a, a + n) || std::count(a, a + n, true) != ones) fail("ska bool: wrong result for %d elements, pattern %d", n, t);
            }
        });
    }
    {   // pointers into one array are ordered by address
        static int arr[2000];
        add_job("ska pointers", 13 * 6, [=](u64 i) {
            int n = SIZES[i % 13], m = MULS[i / 13];
            std::vector<int*> v; for (int k = 0; k < n; ++k) v.push_back(arr + (k * m * 7) % 2000);
            run_one("ska pointers", v);
        });
    }
#elif FAM == 0
    INT(bool);
#endif
#elif GROUP == 4
    reg_subsets<float>(FNAME " float", {0.0f, -0.0f, 1.0f, -1.0f, std::numeric_limits<float>::infinity(), -std::numeric_limits<float>::infinity(), 1e-45f, -1e-45f});
    reg_subsets<double>(FNAME " double", {0.0, -0.0, 1.0, -1.0, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), 5e-324, -5e-324});
    reg_ranges<float>(FNAME " float"); reg_ranges<double>(FNAME " double"); reg_large<float>(FNAME " float"); reg_large<double>(FNAME " double");
#if FAM == 1
    reg_bytes<float>("ska float"); reg_bytes<double>("ska double");
#endif
#elif GROUP == 5
    reg_strings<std::string>(FNAME " string", {0x00, 0x01, 'a', 0x7f, 0x80, 0xff}, FAM == 2);
#elif GROUP == 6 && FAM == 1
    reg_strings<std::wstring>("ska wstring", {0x00, 'a', 0x7f, int(0x80000000u), -1, 0x7fffffff}, false);
    reg_strings<std::u16string>("ska u16string", {0x00, 'a', 0xff, 0x100, 0x8000, 0xffff}, false);
    {
        auto vc = [](const std::vector<int>& d) { std::vector<char> v; for (int x : d) if (x) v.push_back(char((int[]){0, 0, 1, 127, -128, -1}[x])); return v; };
        reg_compound<std::vector<char>>("ska vector<char>", {6, 6, 6}, vc);
        auto vs = [](const std::vector<int>& d) { std::vector<short> v; for (int x : d) if (x) v.push_back(short((int[]){0, 0, 1, 32767, -32768, -1}[x])); return v; };
        reg_compound<std::vector<short>>("ska vector<short>", {6, 6, 6}, vs);
        auto db = [](const std::vector<int>& d) { std::deque<bool> v; for (int x : d) if (x) v.push_back(x == 2); return v; };
        reg_compound<std::deque<bool>>("ska deque<bool>", {3, 3, 3, 3}, db);
    }
#elif GROUP == 7 && FAM == 1
    reg_compound<std::pair<int, short>>("ska pair<int,short>", {8, 8}, [](const std::vector<int>& d) { return std::make_pair(bv<int>(d[0]), bv<short>(d[1])); });
    reg_compound<std::pair<std::string, int>>("ska pair<string,int>", {9, 8}, [](const std::vector<int>& d) { return std::make_pair(sv(d[0]), bv<int>(d[1])); });
    reg_compound<std::pair<int, std::string>>("ska pair<int,string>", {8, 9}, [](const std::vector<int>& d) { return std::make_pair(bv<int>(d[0]), sv(d[1])); });
    reg_compound<std::pair<double, int>>("ska pair<double,int>", {8, 8}, [](const std::vector<int>& d) { return std::make_pair(fv(d[0]), bv<int>(d[1])); });
    reg_compound<std::pair<std::string, std::string>>("ska pair<string,string>", {9, 9}, [](const std::vector<int>& d) { return std::make_pair(sv(d[0]), sv(d[1])); });
#elif GROUP == 8 && FAM == 1
    reg_compound<std::tuple<short, std::string, bool, long>>("ska tuple<short,string,bool,long>", {4, 5, 2, 8}, [](const std::vector<int>& d) { return std::make_tuple(bv<short>(d[0]), sv(d[1]), d[2] == 1, bv<long>(d[3])); });
    reg_compound<std::tuple<int>>("ska tuple<int>", {8}, [](const std::vector<int>& d) { return std::make_tuple(bv<int>(d[0])); });
    reg_compound<std::tuple<bool, bool, signed char>>("ska tuple<bool,bool,signed char>", {2, 2, 8}, [](const std::vector<int>& d) { return std::make_tuple(d[0] == 1, d[1] == 1, bv<signed char>(d[2])); });
    reg_compound<std::tuple<std::pair<short, short>, std::array<int, 2>>>("ska tuple<pair,array>", {4, 4, 6, 6}, [](const std::vector<int>& d) { return std::make_tuple(std::make_pair(bv<short>(d[0]), bv<short>(d[1])), std::array<int, 2>{{bv<int>(d[2]), bv<int>(d[3])}}); });
#elif GROUP == 9 && FAM == 1
    reg_compound<std::array<std::pair<int, int>, 2>>("ska array<pair<int,int>,2>", {4, 4, 4, 4}, [](const std::vector<int>& d) { return std::array<std::pair<int, int>, 2>{{{bv<int>(d[0]), bv<int>(d[1])}, {bv<int>(d[2]), bv<int>(d[3])}}}; });
    reg_compound<std::array<int, 3>>("ska array<int,3>", {8, 8, 8}, [](const std::vector<int>& d) { return std::array<int, 3>{{bv<int>(d[0]), bv<int>(d[1]), bv<int>(d[2])}}; });
    reg_compound<std::array<double, 2>>("ska array<double,2>", {8, 8}, [](const std::vector<int>& d) { return std::array<double, 2>{{fv(d[0]), fv(d[1])}}; });
    reg_compound<std::vector<std::string>>("ska vector<string>", {9, 9, 9}, [](const std::vector<int>& d) { std::vector<std::string> v; for (int x : d) if (x != 5) v.push_back(sv(x)); return v; });
    reg_compound<std::vector<std::tuple<std::string, bool, short>>>("ska vector<tuple<string,bool,short>>", {5, 2, 3, 5, 2, 3, 3}, [](const std::vector<int>& d) {
        std::vector<std::tuple<std::string, bool, short>> v; if (d[6] > 0) v.emplace_back(sv(d[0]), d[1] == 1, bv<short>(d[2])); if (d[6] > 1) v.emplace_back(sv(d[3]), d[4] == 1, bv<short>(d[5])); return v; });
#elif GROUP == 10
    {   // views of strings of the words space
        static std::vector<std::string> pool; std::vector<int> alpha = {0, 'a', 0x80, 0xff};
        u64 c = 1; for (int len = 0; len <= 4; ++len, c *= 4) for (u64 r = 0; r < c; ++r) pool.push_back(word<std::string>(alpha, r, len));
        add_job(FNAME " string_view", 14 * 6 * 2, [=](u64 i) {
            int n = (int[]){5, 128, 200, 341, 700, 999, 1000, 1001, 1024, 1100, 1500, 2000, 2600, 5000}[i % 14]; int m = MULS[i / 14 % 6]; bool rev = FAM == 2 && i / 84;
            std::vector<std::string_view> v; for (int k = 0; k < n; ++k) v.push_back(pool[std::size_t(k * m + k / 300) % pool.size()]);
            run_one(FNAME " string_view", v, rev);
        });
    }
#endif
}
