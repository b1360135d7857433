// Finite input spaces with O(n) unranking: index -> array of int keys.
#ifndef MC_SPACES_HPP
#define MC_SPACES_HPP
#include "core.hpp"
#include <algorithm>
#include <memory>

namespace mc {

struct Input {
    int n = 0;
    std::vector<int> k;                 // keys
    void resize(int m) { n = m; if (int(k.size()) < m) k.resize(std::size_t(m)); }
    int& operator[](int i) { return k[std::size_t(i)]; }
    int operator[](int i) const { return k[std::size_t(i)]; }
    bool sorted() const { for (int i = 1; i < n; ++i) if (k[std::size_t(i)] < k[std::size_t(i - 1)]) return false; return true; }
};

struct Space {
    std::string name;
    u64 size;
    std::function<void(u64, Input&)> get;
    int maxn;
};

inline u64 binom(int n, int k) {
    if (k < 0 || k > n) return 0;
    u64 r = 1;
    for (int i = 1; i <= k; ++i) r = r * u64(n - k + i) / u64(i);
    return r;
}
// idx-th k-subset of {0..n-1}, ascending, into out
inline void unrank_subset(int n, int k, u64 idx, int* out) {
    int x = 0;
    for (int i = 0; i < k; ++i) {
        for (;; ++x) {
            u64 c = binom(n - x - 1, k - i - 1);
            if (idx < c) break;
            idx -= c;
        }
        out[i] = x++;
    }
}

// ---- all weak orders (ordered set partitions) of n elements, as dense ranks
inline u64 fubini(int n) {
    static u64 f[21]; static bool init = false;
    if (!init) {
        f[0] = 1;
        for (int m = 1; m <= 20; ++m) { f[m] = 0; if (m > 14) continue; for (int j = 1; j <= m; ++j) f[m] += binom(m, j) * f[m - j]; }
        init = true;
    }
    return f[n];
}
inline void unrank_weak(int n, u64 idx, int* out) {
    int rest[32]; int m = n;
    for (int i = 0; i < n; ++i) rest[i] = i;
    int rank = 0;
    while (m > 0) {
        int j = 1;
        for (; j <= m; ++j) {
            u64 c = binom(m, j) * fubini(m - j);
            if (idx < c) break;
            idx -= c;
        }
        u64 sub = idx / fubini(m - j); idx %= fubini(m - j);
        int s[32]; unrank_subset(m, j, sub, s);
        int o = 0, p = 0;
        for (int i = 0; i < m; ++i) {
            if (p < j && s[p] == i) { out[rest[i]] = rank; ++p; }
            else rest[o++] = rest[i];
        }
        m -= j; ++rank;
    }
}
inline Space weak_orders(int n) {
    return {"weak(" + std::to_string(n) + ")", fubini(n), [n](u64 i, Input& in) { in.resize(n); unrank_weak(n, i, in.k.data()); }, n};
}
inline u64 factorial(int n) { u64 r = 1; for (int i = 2; i <= n; ++i) r *= u64(i); return r; }
inline void unrank_perm(int n, u64 idx, int* out) {
    int pool[32];
    for (int i = 0; i < n; ++i) pool[i] = i;
    for (int i = 0; i < n; ++i) {
        u64 f = factorial(n - 1 - i);
        int q = int(idx / f); idx %= f;
        out[i] = pool[q];
        for (int j = q; j + 1 < n - i; ++j) pool[j] = pool[j + 1];
    }
}
inline Space perms(int n) {
    return {"perm(" + std::to_string(n) + ")", factorial(n), [n](u64 i, Input& in) { in.resize(n); unrank_perm(n, i, in.k.data()); }, n};
}
// ---- all words of length n over {0..k-1}
inline Space words(int k, int n) {
    u64 s = 1; for (int i = 0; i < n; ++i) s *= u64(k);
    return {"word(" + std::to_string(k) + "^" + std::to_string(n) + ")", s,
            [k, n](u64 i, Input& in) { in.resize(n); for (int p = 0; p < n; ++p) { in[p] = int(i % u64(k)); i /= u64(k); } }, n};
}
// ---- all k-ary words of length n with exactly s letter changes (s+1 constant segments)
inline Space switch_words(int k, int n, int s) {
    u64 letters = u64(k); for (int i = 0; i < s; ++i) letters *= u64(k - 1);
    return {"switch(k=" + std::to_string(k) + ",n=" + std::to_string(n) + ",s=" + std::to_string(s) + ")", binom(n - 1, s) * letters,
            [k, n, s, letters](u64 i, Input& in) {
                in.resize(n);
                u64 l = i % letters; int pos[16]; unrank_subset(n - 1, s, i / letters, pos);
                int c = int(l % u64(k)); l /= u64(k);
                int p = 0;
                for (int q = 0; q < n; ++q) {
                    if (p < s && q == pos[p] + 1) {
                        int d = k > 1 ? int(l % u64(k - 1)) : 0; if (k > 1) l /= u64(k - 1);
                        c = d >= c ? d + 1 : d;
                        ++p;
                    }
                    in[q] = c;
                }
            }, n};
}
// ---- base shapes
enum { N_SHAPES = 16 };
inline const char* shape_name(int s) {
    static const char* n[] = {"asc", "desc", "equal", "organ", "valley", "interleave2", "zigzag", "saw4", "desc-saw5",
                              "asc+tail", "head+asc", "push-mid", "pairs", "mod8", "bitrev", "two-runs"};
    return n[s];
}
inline int shape_val(int s, int i, int n) {
    switch (s) {
        case 0: return i;
        case 1: return n - i;
        case 2: return 7;
        case 3: return i < n / 2 ? i : n - 1 - i;
        case 4: return i < n / 2 ? n / 2 - i : i - n / 2;
        case 5: return i % 2 ? n - i : i;
        case 6: return i ^ 1;
        case 7: { int m = n / 4 + 1; return i % m; }
        case 8: { int m = n / 5 + 1; return m - i % m; }
        case 9: return i == n - 1 ? -1 : i;
        case 10: return i == 0 ? n : i;
        case 11: return i == n / 2 ? -1 : i;
        case 12: return i / 2;
        case 13: return (i * 5) % 8;
        case 14: { int b = 1; while ((1 << b) < n) ++b; int r = 0; for (int q = 0; q < b; ++q) if (i >> q & 1) r |= 1 << (b - 1 - q); return r; }
        default: return i < n / 2 ? 2 * i : 2 * (i - n / 2) + 1;
    }
}
inline Space shapes(int n) {
    return {"shapes(n=" + std::to_string(n) + ")", N_SHAPES, [n](u64 s, Input& in) { in.resize(n); for (int i = 0; i < n; ++i) in[i] = shape_val(int(s), i, n); }, n};
}
// ---- base shape with one deviation: swap(i,j) / move i->j / duplicate key j at i
//      positions restricted to multiples of `stride` (and the last one); stride 1 = all pairs
inline Space deviations(int n, int stride, int nshapes = N_SHAPES) {
    std::vector<int> pos;
    for (int i = 0; i < n; i += stride) pos.push_back(i);
    if (pos.back() != n - 1) pos.push_back(n - 1);
    u64 m = pos.size(), per = 3 * m * m;
    return {"deviate(n=" + std::to_string(n) + ",stride=" + std::to_string(stride) + ")", per * u64(nshapes),
            [n, pos, m, per](u64 idx, Input& in) {
                int s = int(idx / per); idx %= per;
                int kind = int(idx / (m * m)); idx %= m * m;
                int i = pos[idx / m], j = pos[idx % m];
                in.resize(n);
                for (int q = 0; q < n; ++q) in[q] = shape_val(s, q, n);
                if (kind == 0) { if (i <= j) std::swap(in[i], in[j]); else { int lo = in[j]; in[j] = 3 * n; in[i] = lo; } }
                else if (kind == 1) {
                    int v = in[i];
                    if (i < j) for (int q = i; q < j; ++q) in[q] = in[q + 1];
                    else for (int q = i; q > j; --q) in[q] = in[q - 1];
                    in[j] = v;
                }
                else in[i] = in[j];
            }, n};
}
// ---- shape words: concatenation of up to nseg segments (form x level), three length patterns
inline Space shape_words(int n, int nseg) {
    // 5 forms x 4 levels
    u64 per = 20; u64 words = 1; for (int i = 0; i < nseg; ++i) words *= per;
    return {"segments(n=" + std::to_string(n) + ",segs=" + std::to_string(nseg) + ")", words * 4,
            [n, nseg, per](u64 idx, Input& in) {
                int pat = int(idx % 4); idx /= 4;
                in.resize(n);
                int start = 0;
                long tot = 0, acc = 0;
                long w[8];
                for (int s = 0; s < nseg; ++s) {
                    w[s] = pat == 0 ? 1 : pat == 1 ? (1l << s) : pat == 2 ? (1l << (nseg - 1 - s)) : (s % 2 ? 1 : 6);
                    tot += w[s];
                }
                for (int s = 0; s < nseg; ++s) {
                    int c = int(idx % per); idx /= per;
                    int form = c % 5, level = c / 5;
                    acc += w[s];
                    int end = s == nseg - 1 ? n : int(acc * n / tot);
                    int len = end - start;
                    int base = level == 0 ? 0 : level == 1 ? 4 * n * (s + 1) : level == 2 ? -4 * n * (s + 1) : 0;
                    int mul = level == 3 ? 2 : 4, off = level == 3 ? 1 + 2 * s : 0;
                    for (int i = 0; i < len; ++i) {
                        int v;
                        switch (form) {
                            case 0: v = i; break;
                            case 1: v = len - i; break;
                            case 2: v = len / 2; break;
                            case 3: v = i % 2 ? len - i : i; break;
                            default: v = (i * 7) % (len > 10 ? 10 : len ? len : 1); break;
                        }
                        in[start + i] = base + mul * v + off;
                    }
                    start = end;
                }
            }, n};
}
// ---- algebraic families
inline Space linear_mod(int p, int n) {  // a*i mod p, all a
    return {"linear(p=" + std::to_string(p) + ",n=" + std::to_string(n) + ")", u64(p - 1),
            [p, n](u64 a, Input& in) { in.resize(n); for (int i = 0; i < n; ++i) in[i] = int((a + 1) * u64(i) % u64(p)); }, n};
}
inline Space linear_mod_few(int p, int n, int k) {  // (a*i mod p) mod k
    return {"fewunique(p=" + std::to_string(p) + ",n=" + std::to_string(n) + ",k=" + std::to_string(k) + ")", u64(p - 1),
            [p, n, k](u64 a, Input& in) { in.resize(n); for (int i = 0; i < n; ++i) in[i] = int((a + 1) * u64(i) % u64(p) % u64(k)); }, n};
}
inline Space quadratic_mod(int p, int n, int amax, int bmax) {  // (a i^2 + b i) mod p
    return {"quadratic(p=" + std::to_string(p) + ",n=" + std::to_string(n) + ")", u64(amax) * u64(bmax),
            [p, n, bmax](u64 x, Input& in) {
                u64 a = x / u64(bmax) + 1, b = x % u64(bmax);
                in.resize(n); for (int i = 0; i < n; ++i) in[i] = int((a * u64(i) % u64(p) * u64(i) + b * u64(i)) % u64(p));
            }, n};
}
// pseudo-chaotic: 1/(i+a) mod p  (Moebius sequence: no linear structure at all)
inline int inv_mod(int x, int p) { long r = 1, b = x % p, e = p - 2; while (e) { if (e & 1) r = r * b % p; b = b * b % p; e >>= 1; } return int(r); }
inline Space inversive_mod(int p, int n, int amax, int k = 0) {
    auto tab = std::make_shared<std::vector<int>>(std::size_t(p), 0);
    for (int i = 1; i < p; ++i) (*tab)[std::size_t(i)] = inv_mod(i, p);
    return {"inversive(p=" + std::to_string(p) + ",n=" + std::to_string(n) + (k ? ",k=" + std::to_string(k) : "") + ")", u64(amax),
            [p, n, tab, k](u64 a, Input& in) {
                // spread the start index over the period; odd a: doubled stride
                u64 st = a % 2 ? 2 : 1, off = (a / 2) * 17;
                in.resize(n);
                for (int i = 0; i < n; ++i) { int v = (*tab)[std::size_t((off + st * u64(i)) % u64(p))]; in[i] = k ? v % k : v; }
            }, n};
}
// few distinct values each with long plateaus, rotated; every rotation
inline Space rotations(int n, int mult, int stride) {
    u64 m = u64((n + stride - 1) / stride);
    return {"rotate(n=" + std::to_string(n) + ",mult=" + std::to_string(mult) + ")", 2 * m,
            [n, mult, stride, m](u64 x, Input& in) {
                bool rev = x >= m; int r = int(x % m) * stride;
                in.resize(n);
                for (int i = 0; i < n; ++i) { int v = ((i + r) % n) / mult; in[i] = rev ? n - v : v; }
            }, n};
}
// k-way perfect shuffle of a sorted sequence (all k)
inline Space shuffles(int n) {
    return {"kshuffle(n=" + std::to_string(n) + ")", u64(n > 2 ? 2 * (n - 2) : 1),
            [n](u64 x, Input& in) {
                int k = int(x / 2) + 2; bool rev = x & 1;
                in.resize(n);
                int v = 0;
                for (int r = 0; r < k; ++r) for (int i = r; i < n; i += k) in[i] = rev ? n - v++ : v++;
            }, n};
}

// run f on every case of every space, as jobs named prefix/space
template<typename F>
void add_space_jobs(const std::string& prefix, const std::vector<Space>& spaces, F f, u64 limit_s = 20) {
    for (auto& sp : spaces) {
        auto get = sp.get;
        auto in = std::make_shared<Input>();
        add_job(prefix + "/" + sp.name, sp.size, [get, in, f](u64 i) {
            get(i, *in);
            desc().keys = in->k.data(); desc().n = in->n;
            f(static_cast<const Input&>(*in));
        }, limit_s);
    }
}

inline void append(std::vector<Space>& a, std::vector<Space> b) { for (auto& x : b) a.push_back(std::move(x)); }

// ------------------------------------------------------------------ standard profiles
// effort: 0 = tiny (fault enumeration multiplies every case), 1 = small, 2 = quick, 3 = thorough
inline std::vector<Space> small_spaces(int effort) {
    std::vector<Space> v;
    int wn = effort == 0 ? 5 : effort == 1 ? 6 : effort == 2 ? 7 : 8;
    for (int n = 0; n <= wn; ++n) v.push_back(weak_orders(n));
    if (effort >= 2) v.push_back(words(2, effort == 2 ? 12 : 16)), v.push_back(words(3, effort == 2 ? 8 : 10));
    if (effort >= 3) v.push_back(perms(9));
    return v;
}
inline std::vector<Space> medium_spaces(int effort) {
    std::vector<Space> v;
    if (effort == 0) {
        for (int n : {17, 33, 40}) v.push_back(shapes(n));
        v.push_back(switch_words(2, 20, 2));
        return v;
    }
    for (int n = 8; n <= (effort == 1 ? 70 : 140); ++n) v.push_back(shapes(n));
    // two-valued arrays with few switches: ties everywhere
    v.push_back(switch_words(2, 17, effort >= 2 ? 4 : 3));
    v.push_back(switch_words(2, 26, effort >= 2 ? 3 : 2));
    v.push_back(switch_words(2, 34, effort >= 2 ? 3 : 2));
    v.push_back(switch_words(3, 24, effort >= 2 ? 3 : 2));
    v.push_back(switch_words(3, 40, 2));
    v.push_back(switch_words(2, 66, 2));
    v.push_back(switch_words(2, 130, 2));
    v.push_back(deviations(18, 1, effort >= 2 ? 16 : 8));
    v.push_back(deviations(25, effort >= 2 ? 1 : 2));
    v.push_back(deviations(33, effort >= 2 ? 2 : 4));
    v.push_back(deviations(65, effort >= 2 ? 5 : 13));
    if (effort >= 2) v.push_back(deviations(100, 9)), v.push_back(deviations(129, 11));
    v.push_back(shape_words(20, 2)), v.push_back(shape_words(35, 2)), v.push_back(shape_words(64, 2));
    if (effort >= 2) v.push_back(shape_words(48, 3)), v.push_back(shape_words(150, 2));
    for (int p : {31, 61, 127}) v.push_back(linear_mod(p, p)), v.push_back(inversive_mod(p, p, effort >= 2 ? p : p / 2));
    v.push_back(linear_mod_few(61, 61, 3)), v.push_back(linear_mod_few(127, 127, 7));
    v.push_back(quadratic_mod(31, 31, 30, 31)), v.push_back(quadratic_mod(67, 67, 12, 67));
    v.push_back(inversive_mod(101, 101, 101, 5));
    v.push_back(rotations(50, 1, 1)), v.push_back(rotations(90, 4, 1));
    v.push_back(shuffles(60)), v.push_back(shuffles(101));
    if (effort >= 3) {
        v.push_back(switch_words(2, 33, 5));
        v.push_back(switch_words(2, 65, 4));
        v.push_back(switch_words(3, 33, 4));
        v.push_back(switch_words(4, 20, 4));
        v.push_back(deviations(33, 1)), v.push_back(deviations(65, 1)), v.push_back(deviations(129, 2)), v.push_back(deviations(200, 5));
        v.push_back(shape_words(64, 3)), v.push_back(shape_words(150, 3)), v.push_back(shape_words(257, 3));
        v.push_back(quadratic_mod(67, 67, 66, 67)), v.push_back(quadratic_mod(131, 131, 20, 131));
    }
    return v;
}
inline std::vector<Space> large_spaces(int effort) {
    std::vector<Space> v;
    if (effort == 0) return v;
    std::vector<int> sizes = effort == 1 ? std::vector<int>{257, 520} : effort == 2 ? std::vector<int>{255, 256, 257, 513, 600, 1025, 1500, 2049, 4500}
                                         : std::vector<int>{255, 256, 257, 511, 512, 513, 600, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 4500, 6000, 8193, 10000, 16385, 20000, 33000, 65537};
    for (int n : sizes) v.push_back(shapes(n));
    v.push_back(shape_words(300, 2));
    v.push_back(linear_mod_few(521, 521, 4));
    v.push_back(inversive_mod(521, 521, 40)), v.push_back(inversive_mod(521, 521, 40, 6));
    if (effort >= 2) {
        v.push_back(shape_words(520, 2));
        v.push_back(shape_words(1100, 2));
        v.push_back(inversive_mod(1031, 1031, 60)), v.push_back(inversive_mod(1031, 1031, 60, 9)), v.push_back(inversive_mod(1031, 1031, 60, 40));
        v.push_back(inversive_mod(2053, 2053, 24)), v.push_back(inversive_mod(2053, 2053, 24, 24)), v.push_back(inversive_mod(4099, 4099, 12, 80));
        v.push_back(deviations(300, 60)), v.push_back(deviations(1030, 206, 16));
        v.push_back(shuffles(200));
        v.push_back(rotations(520, 1, 16)), v.push_back(rotations(1040, 9, 40));
    }
    if (effort >= 3) {
        v.push_back(shape_words(400, 3)), v.push_back(shape_words(1100, 3)), v.push_back(shape_words(4200, 2));
        v.push_back(linear_mod(1031, 1031)), v.push_back(linear_mod_few(1031, 1031, 12));
        v.push_back(inversive_mod(10007, 10007, 40)), v.push_back(inversive_mod(10007, 10007, 40, 100)), v.push_back(inversive_mod(10007, 9999, 40, 12));
        v.push_back(deviations(520, 20)), v.push_back(deviations(2050, 205));
        v.push_back(shuffles(1000));
    }
    return v;
}
// past the 16-bit sizes, for sorters which are n log n (told by their name)
inline std::vector<Space> huge_few(const std::string& name) {
    for (const char* x : {"insertion", "selection", "hybrid3", "block", "grail", "wiki", "cartesian", "splay"}) if (name.find(x) != std::string::npos) return {};
    for (const char* x : {"pdq", "heap", "merge", "tim", "spin", "mel"}) if (name.find(x) != std::string::npos) return {inversive_mod(70001, 70001, 1), inversive_mod(70001, 70001, 1, 5), inversive_mod(70001, 70001, 1, 800)};
    return {};
}
inline std::vector<Space> all_spaces(int effort) {
    auto v = small_spaces(effort);
    append(v, medium_spaces(effort));
    append(v, large_spaces(effort));
    return v;
}

} // namespace mc
#endif
