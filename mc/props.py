"""Properties: which harness translation units decide them, and with which build."""
import os
HERE = os.path.dirname(os.path.abspath(__file__))

class Harness:
    def __init__(self, name, src, defines=(), includes=(), cxx="g++", std="c++17", flags=("-O1",), shards=1, weight=1.0):
        self.name, self.src, self.defines, self.includes = name, src, list(defines), list(includes)
        self.cxx, self.std, self.flags, self.shards, self.weight = cxx, std, list(flags), shards, weight
    def source(self):
        s = ""
        for d in self.defines:
            k, _, v = d.partition("=")
            s += "#define %s %s\n" % (k, v)
        # the standard headers come first: nothing the library does may depend on it, and it keeps macros out of them
        s += '#include "core.hpp"\n'
        for i in self.includes: s += "#include <%s>\n" % i
        s += '#include "%s"\n' % self.src
        return s

class Prop:
    def __init__(self, id, level, rule, fn, assumptions=(), technique="", note=""):
        self.id, self.level, self.rule, self.fn = id, level, rule, fn
        self.assumptions = list(assumptions); self.technique = technique; self.note = note
    def harnesses(self, tier): return self.fn(tier)

PROPS = {}
def register(*a, **k):
    p = Prop(*a, **k); PROPS[p.id] = p
def get(id): return PROPS[id]

SAN = ["-O1", "-fsanitize=address,shift,signed-integer-overflow,integer-divide-by-zero,bounds,unreachable,return", "-fno-sanitize-recover=undefined"]

# ---------------------------------------------------------------- comparison sorters
class S:
    """name, header, expression; cat 0 fwd / 1 bidi / 2 RA (as documented); stable as documented;
    mem: 'safe' = documented not to throw bad_alloc; dc = needs default-constructible elements;
    worst: 'nlogn' | 'nlog2n' | 'n2'; best_n: documented O(n) best case."""
    def __init__(self, name, hdr, expr, cat, stable=0, safe=0, dc=0, worst="nlogn", best_n=0, w=1.0, lists=0, retains=None):
        self.name, self.hdr, self.expr, self.cat, self.stable, self.safe, self.dc = name, hdr, expr, cat, stable, safe, dc
        self.worst, self.best_n, self.w = worst, best_n, w
    def includes(self): return ["cpp-sort/" + h for h in self.hdr.split()]
    def defines(self):
        return ["SNAME=\"%s\"" % self.name, "SEXPR=%s" % self.expr, "S_CAT=%d" % self.cat, "S_STABLE=%d" % self.stable,
                "S_SAFE=%d" % self.safe, "S_DC=%d" % self.dc, "S_WORST=%d" % {"nlogn": 0, "nlog2n": 1, "n2": 2, "nloglog": 3}[self.worst], "S_BESTN=%d" % self.best_n]

C = "cppsort::"
SORTERS = [
 S("adaptive_shivers", "sorters/adaptive_shivers_sorter.h", C+"adaptive_shivers_sorter{}", 2, stable=1, best_n=1),
 S("block", "sorters/block_sorter.h", C+"block_sorter<>{}", 2, stable=1, safe=1, dc=1, best_n=1),
 S("cartesian_tree", "sorters/cartesian_tree_sorter.h", C+"cartesian_tree_sorter{}", 0, best_n=1),
 S("d_ary_heap_2", "sorters/d_ary_heap_sorter.h", C+"d_ary_heap_sorter<2>{}", 2, safe=1),
 S("d_ary_heap_3", "sorters/d_ary_heap_sorter.h", C+"d_ary_heap_sorter<3>{}", 2, safe=1),
 S("d_ary_heap_4", "sorters/d_ary_heap_sorter.h", C+"d_ary_heap_sorter<4>{}", 2, safe=1),
 S("d_ary_heap_7", "sorters/d_ary_heap_sorter.h", C+"d_ary_heap_sorter<7>{}", 2, safe=1),
 S("default", "sorters/default_sorter.h", C+"default_sorter{}", 0, safe=1, best_n=1),
 S("drop_merge", "sorters/drop_merge_sorter.h", C+"drop_merge_sorter{}", 1, best_n=1),
 S("grail", "sorters/grail_sorter.h", C+"grail_sorter<>{}", 2, stable=1, safe=1),
 S("heap", "sorters/heap_sorter.h", C+"heap_sorter{}", 2, safe=1),
 S("insertion", "sorters/insertion_sorter.h", C+"insertion_sorter{}", 1, stable=1, safe=1, worst="n2", best_n=1, w=4),
 S("mel", "sorters/mel_sorter.h", C+"mel_sorter{}", 0, best_n=1, w=1.3),
 S("merge_insertion", "sorters/merge_insertion_sorter.h", C+"merge_insertion_sorter{}", 2, w=1.2),
 S("merge", "sorters/merge_sorter.h", C+"merge_sorter{}", 0, stable=1, safe=1),
 S("pdq", "sorters/pdq_sorter.h", C+"pdq_sorter{}", 2, safe=1, best_n=1),
 S("poplar", "sorters/poplar_sorter.h", C+"poplar_sorter{}", 2),
 S("quick_merge", "sorters/quick_merge_sorter.h", C+"quick_merge_sorter{}", 0, safe=1, best_n=1),
 S("quick", "sorters/quick_sorter.h", C+"quick_sorter{}", 0, safe=1, best_n=1),
 S("selection", "sorters/selection_sorter.h", C+"selection_sorter{}", 0, safe=1, worst="n2", w=8),
 S("slab", "sorters/slab_sorter.h", C+"slab_sorter{}", 1, best_n=1, w=1.3),
 S("smooth", "sorters/smooth_sorter.h", C+"smooth_sorter{}", 2, safe=1, best_n=1),
 S("spin", "sorters/spin_sorter.h", C+"spin_sorter{}", 2, stable=1, best_n=1),
 S("splay", "sorters/splay_sorter.h", C+"splay_sorter{}", 0, stable=1, best_n=1, w=1.2),
 S("split", "sorters/split_sorter.h", C+"split_sorter{}", 2, safe=1, best_n=1),
 S("std", "sorters/std_sorter.h", C+"std_sorter{}", 2, safe=1),
 S("tim", "sorters/tim_sorter.h", C+"tim_sorter{}", 2, stable=1, best_n=1),
 S("verge", "sorters/verge_sorter.h", C+"verge_sorter{}", 1, best_n=1),
 S("wiki", "sorters/wiki_sorter.h", C+"wiki_sorter<>{}", 2, stable=1, safe=1, dc=1, best_n=1),
]
U = "cppsort::utility::"
BUFFERED = []
for fam, hdr in (("grail", "sorters/grail_sorter.h"), ("wiki", "sorters/wiki_sorter.h")):
    for nm, buf in (("fixed0", U+"fixed_buffer<0>"), ("fixed1", U+"fixed_buffer<1>"), ("fixed2", U+"fixed_buffer<2>"), ("fixed3", U+"fixed_buffer<3>"), ("fixed8", U+"fixed_buffer<8>"), ("fixed16", U+"fixed_buffer<16>"),
                    ("fixed64", U+"fixed_buffer<64>"), ("fixed512", U+"fixed_buffer<512>"), ("dyn_half", U+"dynamic_buffer<"+U+"half>"),
                    ("dyn_sqrt", U+"dynamic_buffer<"+U+"sqrt>"), ("dyn_log", U+"dynamic_buffer<"+U+"log>"), ("dyn_id", U+"dynamic_buffer<"+U+"identity>")):
        BUFFERED.append(S(fam+"_"+nm, hdr + " utility/buffer.h utility/functional.h", C+fam+"_sorter<"+buf+">{}", 2, stable=1, safe=0, dc=1, best_n=(fam == "wiki")))
STD_ADAPTED = [
 S("drop_merge_adapter_pdq", "adapters/drop_merge_adapter.h sorters/pdq_sorter.h", C+"drop_merge_adapter<"+C+"pdq_sorter>{}", 2, best_n=1),
 S("drop_merge_adapter_quick", "adapters/drop_merge_adapter.h sorters/quick_sorter.h", C+"drop_merge_adapter<"+C+"quick_sorter>{}", 1, best_n=1),
 S("split_adapter_heap", "adapters/split_adapter.h sorters/heap_sorter.h", C+"split_adapter<"+C+"heap_sorter>{}", 2, safe=1, best_n=1),
 S("split_adapter_quick_merge", "adapters/split_adapter.h sorters/quick_merge_sorter.h", C+"split_adapter<"+C+"quick_merge_sorter>{}", 1, safe=1, best_n=1),
 S("verge_adapter_poplar", "adapters/verge_adapter.h sorters/poplar_sorter.h", C+"verge_adapter<"+C+"poplar_sorter>{}", 2, best_n=1),
 S("verge_adapter_merge", "adapters/verge_adapter.h sorters/merge_sorter.h", C+"verge_adapter<"+C+"merge_sorter>{}", 1, best_n=1),
 S("stable_verge_merge", "adapters/verge_adapter.h adapters/stable_adapter.h sorters/merge_sorter.h", C+"stable_adapter<"+C+"verge_adapter<"+C+"merge_sorter>>{}", 1, stable=1, best_n=1),
]
BY = {s.name: s for s in SORTERS + BUFFERED + STD_ADAPTED}

def per_sorter(src, sorters, defines=(), includes=(), suffix="", **kw):
    out = []
    for s in sorters:
        k = dict(kw); w = k.pop("weight", 1.0) * s.w
        out.append(Harness(s.name + suffix, src, s.defines() + list(defines), s.includes() + list(includes), weight=w, **k))
    return out

# ---------------------------------------------------------------- C01
def c01(tier):
    sh = 4 if tier == "thorough" else 1
    # merge_insertion is documented as "really too slow for any real world use": its moves are quadratic
    # with audits, what the library assumes (CPPSORT_ASSUME, CPPSORT_UNREACHABLE) is asserted too
    A = ["CPPSORT_ENABLE_AUDITS=1"]
    return (per_sorter("c01.cpp", [s for s in SORTERS if s.name != "merge_insertion"], defines=A, shards=sh) +
            per_sorter("c01.cpp", [BY["merge_insertion"]], defines=A + ["SLOW_MOVES=1"], shards=sh) +
            per_sorter("c01.cpp", STD_ADAPTED, defines=A, shards=sh))
register("C01", "exploration",
  "every case of every listed space is one execution of the real sorter (three element/comparator kinds); non-trivial = the input is not already sorted",
  c01,
  technique="bounded exhaustive exploration of the implementation (all weak orders / words / deviations / segment words up to the bounds) with an instrumented world",
  note="Complete within the stated spaces; says nothing about inputs outside them. Trusts the harness oracle and the compiler.")

# ---------------------------------------------------------------- C02
def with_cats(src, sorters, cats=(0, 1), defines=(), **kw):
    out = []
    for s in sorters:
        for c in cats:
            if c < s.cat: continue
            out += per_sorter(src, [s], defines=["IT_CAT=%d" % c] + list(defines), suffix="_" + ("fwd", "bidi", "ra")[c], **kw)
    return out
def c02(tier):
    hs = with_cats("c02.cpp", [s for s in SORTERS + STD_ADAPTED if s.cat < 2], shards=4 if tier == "thorough" else 1)
    for k, h in enumerate(hs): h.std = ("c++17", "c++20", "c++14")[k % 3]
    return hs
register("C02", "exploration",
  "every case of every listed space is one execution of the real sorter over bounds-checked iterators that provide only one category's operations, plus std::list/std::forward_list; non-trivial = the input is not already sorted",
  c02,
  technique="bounded exhaustive exploration of the implementation over checked forward/bidirectional iterators",
  note="Complete within the stated spaces; category violations are compile errors of the harness. Trusts the harness oracle.")

# ---------------------------------------------------------------- C03
AD = "adapters/"
def adapt(s, ad, hdr, expr=None, stable=None, cat=None, safe=0, dc=None):
    """wrap sorter s (given by a default-constructed type expression) in adapter `ad`"""
    t = s.expr[:-2]
    e = (expr or (C + ad + "<%s>{}")) % t
    return S(s.name + "__" + ad, s.hdr + " " + hdr, e, s.cat if cat is None else cat, stable=s.stable if stable is None else stable, safe=safe, dc=s.dc if dc is None else dc, w=s.w, worst=s.worst, best_n=0)
def c03(tier):
    out = with_cats("c03.cpp", [s for s in SORTERS if s.stable], cats=(0, 1, 2))
    out += with_cats("c03.cpp", [s for s in SORTERS if not s.stable], cats=(2,))      # is_stable must be false or true(!)
    st = [adapt(s, "stable_adapter", AD + "stable_adapter.h", stable=1) for s in SORTERS]
    st += [adapt(BY["pdq"], "make_stable", AD + "stable_adapter.h", stable=1), adapt(BY["quick"], "stable_t", AD + "stable_adapter.h", C + "stable_t<%s>{}", stable=1)]
    st += [S("stable_" + a.name, a.hdr + " adapters/stable_adapter.h", C + "stable_adapter<" + a.expr[:-2] + ">{}", a.cat, stable=1) for a in STD_ADAPTED[:6]]
    st += [S("stable_hybrid", "adapters/hybrid_adapter.h adapters/stable_adapter.h sorters/pdq_sorter.h sorters/quick_sorter.h sorters/tim_sorter.h sorters/merge_sorter.h", C+"stable_adapter<"+C+"hybrid_adapter<"+C+"quick_sorter,"+C+"pdq_sorter>>{}", 0, stable=1),
           S("stable_hybrid_mixed", "adapters/hybrid_adapter.h adapters/stable_adapter.h sorters/pdq_sorter.h sorters/drop_merge_sorter.h sorters/merge_sorter.h", C+"stable_adapter<"+C+"hybrid_adapter<"+C+"merge_sorter,"+C+"drop_merge_sorter,"+C+"pdq_sorter>>{}", 0, stable=1),
           S("stable_self_sort", "adapters/self_sort_adapter.h adapters/stable_adapter.h sorters/heap_sorter.h", C+"stable_adapter<"+C+"self_sort_adapter<"+C+"heap_sorter>>{}", 2, stable=1),
           S("hybrid_mixed", "adapters/hybrid_adapter.h sorters/tim_sorter.h sorters/quick_sorter.h", C+"hybrid_adapter<"+C+"tim_sorter,"+C+"quick_sorter>{}", 0, stable=0),
           S("schwartz_merge", "adapters/schwartz_adapter.h sorters/merge_sorter.h", C+"schwartz_adapter<"+C+"merge_sorter>{}", 0, stable=1),
           S("indirect_tim", "adapters/indirect_adapter.h sorters/tim_sorter.h", C+"indirect_adapter<"+C+"tim_sorter>{}", 2, stable=1),
           S("indirect_merge", "adapters/indirect_adapter.h sorters/merge_sorter.h", C+"indirect_adapter<"+C+"merge_sorter>{}", 0, stable=1),
           S("counting_spin", "adapters/counting_adapter.h sorters/spin_sorter.h", C+"counting_adapter<"+C+"spin_sorter>{}", 2, stable=1),
           S("oop_grail", "adapters/out_of_place_adapter.h sorters/grail_sorter.h", C+"out_of_place_adapter<"+C+"grail_sorter<>>{}", 0, stable=1),
           ]
    out += with_cats("c03.cpp", st, cats=(0, 2))
    return out
register("C03", "exploration",
  "every case sorts instrumented elements whose identities record the original order, for tie-heavy input spaces; non-trivial = the input contains ties",
  c03,
  technique="bounded exhaustive exploration of tie patterns on the implementation, identity-tracking oracle",
  note="Complete within the stated tie-pattern spaces (all weak orders n<=7, binary words n<=12, structured spaces up to n=4097). is_stable answers are compared with the observed behaviour.")

# ---------------------------------------------------------------- adapters used by several properties
ALLAD = "adapters/counting_adapter.h adapters/schwartz_adapter.h adapters/indirect_adapter.h adapters/out_of_place_adapter.h adapters/stable_adapter.h "
ADAPTED = [
 adapt(BY["pdq"], "schwartz_adapter", AD + "schwartz_adapter.h"),
 adapt(BY["merge"], "schwartz_adapter", AD + "schwartz_adapter.h"),
 adapt(BY["grail"], "schwartz_adapter", AD + "schwartz_adapter.h"),
 adapt(BY["drop_merge"], "schwartz_adapter", AD + "schwartz_adapter.h"),
 adapt(BY["quick"], "indirect_adapter", AD + "indirect_adapter.h"),
 adapt(BY["heap"], "indirect_adapter", AD + "indirect_adapter.h"),
 adapt(BY["spin"], "indirect_adapter", AD + "indirect_adapter.h"),
 adapt(BY["smooth"], "stable_adapter", AD + "stable_adapter.h", stable=1),
 adapt(BY["mel"], "stable_adapter", AD + "stable_adapter.h", stable=1),
 adapt(BY["slab"], "stable_adapter", AD + "stable_adapter.h", stable=1),
 adapt(BY["quick_merge"], "stable_adapter", AD + "stable_adapter.h", stable=1),
 adapt(BY["tim"], "out_of_place_adapter", AD + "out_of_place_adapter.h", cat=0),
 adapt(BY["poplar"], "out_of_place_adapter", AD + "out_of_place_adapter.h", cat=0),
 adapt(BY["merge_insertion"], "counting_adapter", AD + "counting_adapter.h"),
]
for a_ in ADAPTED: BY[a_.name] = a_

def lowest_and_ra(src, sorters, **kw):
    out = []
    for s in sorters:
        out += with_cats(src, [s], cats=sorted({s.cat, 2}), **kw)
    return out

# code that differs by language version: scope guards, aligned and sized deallocation, iterator concepts
def other_standards(src, **kw):
    out = []
    for std, names in (("c++14", ("quick__indirect_adapter", "spin__indirect_adapter", "heap__indirect_adapter", "tim__out_of_place_adapter", "pdq__schwartz_adapter", "quick_merge__stable_adapter", "mel", "spin", "tim", "merge", "grail_dyn_half", "drop_merge")),
                       ("c++20", ("quick__indirect_adapter", "merge__schwartz_adapter", "mel__stable_adapter", "slab", "splay", "pdq", "cartesian_tree", "adaptive_shivers", "wiki_dyn_sqrt", "verge"))):
        for n in names:
            for h in with_cats(src, [BY[n]], cats=(BY[n].cat,), std=std, **kw):
                h.name += "_cpp" + std[3:]; out.append(h)
    return out

# the type-specific sorters on instrumented elements, through a projection to a key type
TYPED = []
for so, hdr in (("ska_sorter", "ska_sorter"), ("spread_sorter", "spread_sorter")):
    for kn, kt in (("int", "int"), ("float", "float"), ("string", "std::string"), ("pair", "std::pair<short, int>"), ("tuple", "std::tuple<bool, std::string, signed char>")):
        if so == "spread_sorter" and kn in ("pair", "tuple"): continue
        TYPED.append(S(so[:-7] + "_" + kn, "sorters/%s.h" % hdr, "mc::Typed<%s%s, %s>{}" % (C, so, kt), 2))
def typed(src, skip=(), **kw):
    out = []
    for s in TYPED:
        if s.name in skip: continue
        for h in per_sorter(src, [s], defines=["IT_CAT=2"] + (["MC_COUNTED_IT=1"] if src in ("c04.cpp", "c05.cpp", "c06.cpp") else []), **kw):
            h.includes.append("typed.hpp"); h.name += "_ra"
            out.append(h)
    return out

# ---------------------------------------------------------------- C04
def c04(tier):
    ss = [s for s in SORTERS if s.name not in ("block", "d_ary_heap_2", "d_ary_heap_7")] + STD_ADAPTED + ADAPTED + [BY[n] for n in ("wiki_fixed16", "wiki_dyn_sqrt", "grail_dyn_half", "grail_fixed8")]
    return lowest_and_ra("c04.cpp", ss, flags=SAN, shards=4 if tier == "thorough" else 1) + typed("c04.cpp", flags=SAN) + other_standards("c04.cpp", flags=SAN)
register("C04", "exploration",
  "every case sorts instrumented move-only elements (state machine per object: alive/moved/dead, self pointer) in an exactly sized heap block under ASan and UBSan; non-trivial = the input is not already sorted",
  c04,
  technique="bounded exhaustive exploration of the implementation with an object-lifetime monitor (ASan/UBSan build)",
  note="Complete within the stated spaces for the monitored element types. Trusts the sanitizers and the monitor.")

# ---------------------------------------------------------------- C05
def c05(tier):
    out = []
    drop = {"block", "d_ary_heap_2", "d_ary_heap_7"}
    ss = [s for s in SORTERS if s.name not in drop] + STD_ADAPTED + ADAPTED + [BY[n] for n in ("wiki_fixed16", "wiki_dyn_sqrt", "grail_dyn_half", "grail_fixed8")]
    out += lowest_and_ra("c05.cpp", ss, shards=2 if tier == "thorough" else 1)
    return out + typed("c05.cpp") + other_standards("c05.cpp")
register("C05", "fault_enumeration",
  "for every input of the space, one execution per throwing point (every comparator call, projection call, element move and swap in turn; for the '-strided' jobs the first and last 40 points and 60 evenly spread ones); non-trivial = a fault was injected",
  c05,
  technique="exhaustive fault enumeration: exception at every callback/move point of every input in the bounded space, on the real code",
  note="Complete over throwing points for the non-strided spaces. Element lifetimes and heap blocks are accounted exactly by the harness. Trusts the harness allocator.")

# ---------------------------------------------------------------- C06
def c06(tier):
    ss = [s for s in SORTERS if s.name not in ("d_ary_heap_2", "d_ary_heap_7")] + STD_ADAPTED + ADAPTED + [BY[n] for n in ("wiki_fixed16", "wiki_dyn_sqrt", "wiki_dyn_half", "grail_dyn_half", "grail_dyn_sqrt", "grail_dyn_id")]
    ss += [S("stable_adapter_merge", "adapters/stable_adapter.h sorters/merge_sorter.h", C+"stable_adapter<"+C+"merge_sorter>{}", 0, stable=1, safe=1)]
    return lowest_and_ra("c06.cpp", ss, shards=3 if tier == "thorough" else 1) + typed("c06.cpp", skip=("ska_string", "ska_tuple", "spread_string")) + other_standards("c06.cpp")
register("C06", "fault_enumeration",
  "for every input of the space: one execution per failing allocation, per first failing allocation, per maximal available block size, and (product jobs) per limited-memory plan and throwing point; non-trivial = at least one allocation failed",
  c06,
  technique="exhaustive fault enumeration: every allocation failure pattern of the three families, times every exception point in the product jobs, on the real code",
  note="Complete for each listed input over the three failure families (strided only for the large inputs). Trusts the harness allocator.")

# ---------------------------------------------------------------- C07
ONE_CAT = [s for s in SORTERS if s.name not in ("d_ary_heap_2", "d_ary_heap_7", "d_ary_heap_4")]
def c07(tier):
    ss = ONE_CAT + STD_ADAPTED + ADAPTED + [BY[n] for n in ("wiki_fixed16", "wiki_dyn_sqrt", "grail_dyn_half", "grail_fixed8")]
    return lowest_and_ra("c07.cpp", ss, shards=3 if tier == "thorough" else 1) + typed("c07.cpp")
register("C07", "exploration",
  "every case is sorted 11 times in environments that differ in heap content, stack content, history and placement; the full sequences of comparisons, projections, moves and allocations (identity hashes) have to coincide; every execution is non-trivial",
  c07,
  technique="bounded exhaustive exploration of inputs x environments on the implementation, comparing complete operation traces",
  note="Environments are the enumerated ones only. Trace equality is equality of 64-bit hashes and counters.")

# ---------------------------------------------------------------- C08
def c08(tier):
    ss = ONE_CAT + STD_ADAPTED + ADAPTED + [BY[n] for n in ("wiki_fixed16", "wiki_dyn_sqrt", "grail_dyn_half", "grail_fixed8")]
    out = lowest_and_ra("c08.cpp", ss, shards=3 if tier == "thorough" else 1) + typed("c08.cpp")
    al = [s for s in SORTERS + STD_ADAPTED + ADAPTED + BUFFERED[3:5] + BUFFERED[-2:]]
    for k in range(8):
        g = al[k::8]
        out.append(Harness("threads%d" % k, "c08t.cpp", ["SLIST=" + " ".join("X((%s))" % s.expr for s in g)], sorted({h for s in g for h in s.includes()}), flags=["-O1", "-fsanitize=thread"], weight=7))
    return out
register("C08", "model_checking",
  "one execution per schedule; a schedule interleaves two or three real sorts (coroutines) at their comparator/projection/move/swap steps; states are the distinct pairs (triples) of positions at which a switch was tried, transitions the steps executed",
  c08,
  technique="stateless model checking of the implementation: controlled scheduler over coroutines, all schedules up to the preemption bound",
  note="Complete up to 3 preemptions for n<=3, 2 preemptions for n=4, 1 preemption (nesting at every step) for n<=33; strided beyond. Steps between two callbacks are atomic for the scheduler.")

# ---------------------------------------------------------------- C09
C09_BOUNDS = {   # measured on the tree (n < 512: comparisons, moves, iterator steps; then n >= 512), in units of the documented bound
  'adaptive_shivers_ra': [0.873, 3.706, 7.78, 0.924, 2.322, 4.751],
  'block_ra': [0.977, 1.334, 2.013, 1.077, 2.526, 2.855],
  'cartesian_tree_fwd': [1.473, 0.32, 0.48, 1.582, 0.221, 0.332],
  'cartesian_tree_ra': [1.473, 0.32, 0.32, 1.582, 0.221, 0.221],
  'd_ary_heap_2_ra': [2.274, 4.992, 5.014, 2.502, 5.322, 5.282],
  'd_ary_heap_3_ra': [2.105, 3.56, 4.156, 2.208, 3.67, 4.229],
  'd_ary_heap_4_ra': [2.161, 3.045, 3.932, 2.249, 3.06, 3.987],
  'd_ary_heap_7_ra': [2.629, 2.493, 4.09, 2.805, 2.422, 4.245],
  'drop_merge_bidi': [2.593, 3.299, 4.747, 2.757, 3.065, 3.379],
  'drop_merge_ra': [2.593, 3.299, 4.605, 2.757, 3.065, 3.379],
  'grail_ra': [2.603, 7.178, 6.188, 2.479, 6.484, 6.02],
  'heap_ra': [1.17, 1.565, 2.804, 1.249, 1.497, 2.8],
  'insertion_bidi': [0.992, 1.007, 1.99, 0.997, 1.002, 1.996],
  'insertion_ra': [0.992, 1.007, 1.99, 0.997, 1.002, 1.996],
  'mel_fwd': [1.405, 0.32, 0.482, 1.65, 0.221, 0.332],
  'mel_ra': [1.405, 0.32, 0.323, 1.65, 0.221, 0.222],
  'merge_insertion_ra': [0.838, 3.473, 5.327, 0.891, 3.499, 5.02],
  'merge_fwd': [1.288, 3.198, 3.298, 1.205, 2.517, 3.186],
  'merge_ra': [2.64, 3.06, 5.515, 2.222, 2.704, 4.648],
  'pdq_ra': [1.834, 1.64, 3.272, 1.951, 1.137, 3.488],
  'poplar_ra': [2.364, 2.475, 4.44, 2.418, 1.976, 3.947],
  'quick_merge_fwd': [5.267, 3.273, 7.763, 5.264, 5.252, 8.606],
  'quick_merge_ra': [2.877, 2.452, 5.425, 2.677, 2.959, 4.896],
  'quick_fwd': [5.994, 3.657, 9.971, 7.599, 7.384, 12.649],
  'quick_ra': [5.727, 2.755, 6.894, 7.298, 3.087, 8.303],
  'selection_fwd': [0.994, 0.09, 1.008, 0.997, 0.012, 1.002],
  'selection_ra': [0.994, 0.09, 1.008, 0.997, 0.012, 1.002],
  'slab_bidi': [6.961, 1.855, 4.471, 7.278, 1.606, 5.721],
  'slab_ra': [6.961, 1.855, 4.347, 7.278, 1.606, 5.637],
  'smooth_ra': [2.509, 3.343, 4.514, 2.683, 3.567, 4.46],
  'spin_ra': [5.105, 5.419, 10.369, 2.065, 2.429, 2.402],
  'splay_fwd': [1.285, 0.32, 0.48, 1.421, 0.221, 0.332],
  'splay_ra': [1.285, 0.32, 0.32, 1.421, 0.221, 0.221],
  'split_ra': [1.765, 1.952, 3.12, 1.796, 1.23, 2.261],
  'std_ra': [2.952, 1.891, 5.792, 3.095, 1.822, 6.196],
  'tim_ra': [0.873, 3.706, 7.78, 0.924, 2.322, 4.751],
  'verge_bidi': [3.017, 2.513, 5.001, 1.999, 2.962, 4.281],
  'verge_ra': [1.743, 1.64, 3.188, 1.441, 1.05, 2.215],
  'wiki_ra': [0.977, 1.334, 2.013, 1.077, 2.526, 2.855],
  'drop_merge_adapter_pdq_ra': [2.593, 3.299, 4.605, 2.757, 3.065, 3.379],
  'drop_merge_adapter_quick_bidi': [3.14, 4.255, 4.747, 2.991, 3.312, 3.379],
  'drop_merge_adapter_quick_ra': [3.14, 4.255, 4.605, 2.991, 3.312, 3.379],
  'split_adapter_heap_ra': [1.333, 1.698, 3.233, 1.274, 1.521, 3.042],
  'split_adapter_quick_merge_bidi': [2.188, 2.67, 4.67, 1.911, 3.129, 4.257],
  'split_adapter_quick_merge_ra': [2.542, 2.75, 5.048, 2.131, 3.141, 4.418],
  'verge_adapter_poplar_ra': [2.315, 2.475, 4.44, 2.373, 1.898, 3.919],
  'verge_adapter_merge_bidi': [2.64, 3.06, 5.743, 2.32, 2.704, 5.175],
  'verge_adapter_merge_ra': [2.64, 3.06, 5.515, 2.272, 2.704, 4.749],
  'quick__indirect_adapter_fwd': [5.727, 0.24, 0.32, 7.298, 0.166, 0.221],
  'quick__indirect_adapter_ra': [5.727, 0.24, 0.32, 7.298, 0.166, 0.221],
  'spin__indirect_adapter_ra': [5.105, 0.24, 0.32, 2.065, 0.166, 0.221],
  'merge__schwartz_adapter_fwd': [2.562, 5.59, 3.298, 1.856, 4.227, 3.186],
  'merge__schwartz_adapter_ra': [2.64, 5.59, 5.515, 2.222, 4.227, 4.648],
  'slab__stable_adapter_bidi': [5.914, 3.131, 0.32, 6.027, 2.498, 0.221],
  'slab__stable_adapter_ra': [5.914, 3.131, 0.16, 6.027, 2.498, 0.111],
  'quick_merge__stable_adapter_fwd': [3.129, 3.219, 0.32, 3.232, 3.733, 0.221],
  'quick_merge__stable_adapter_ra': [3.129, 3.219, 0.16, 3.232, 3.733, 0.111],
  'wiki_fixed16_ra': [1.332, 4.074, 5.382, 1.367, 6.267, 6.299],
  'wiki_dyn_sqrt_ra': [1.492, 4.251, 6.261, 1.254, 4.168, 5.091],
  'grail_dyn_half_ra': [2.603, 5.088, 6.188, 2.478, 4.577, 6.028],
  'grail_fixed8_ra': [2.603, 6.614, 6.188, 2.478, 6.027, 6.028],
  'insertion_lists': [0.178, 0.0, 0.0, 0.035, 0.0, 0.0],
  'selection_lists': [0.998, 0.0, 0.0, 0.999, 0.0, 0.0],
  'merge_lists': [0.889, 0.0, 0.0, 0.927, 0.0, 0.0],
  'mel_lists': [1.405, 0.32, 0.0, 1.576, 0.221, 0.0],
}
def lists_harness(src, n, bounds, f, defines=()):
    s = BY[n]
    h = Harness(n + "_lists", src, [d for d in s.defines() if not d.startswith("SEXPR")] + ["SEXPR=cppsort::container_aware_adapter<%s>{}" % s.expr[:-2], "LISTS=1", "IT_CAT=2"] + list(defines), s.includes() + ["cpp-sort/adapters/container_aware_adapter.h"], weight=s.w)
    if bounds: h.defines += f(bounds)
    return h
def tier_bounds(b):
    f = lambda i, k, c: "{%.2f, %.2f}" % (b[i] * k + c, b[i + 3] * k + c)
    return ["BOUND_C=" + f(0, 2, .5), "BOUND_M=" + f(1, 2, 1), "BOUND_I=" + f(2, 3, 4)]
def c09(tier):
    ss = [s for s in SORTERS if s.name != "default"] + STD_ADAPTED[:6] + [BY[n] for n in ("quick__indirect_adapter", "spin__indirect_adapter", "merge__schwartz_adapter", "slab__stable_adapter", "quick_merge__stable_adapter", "wiki_fixed16", "wiki_dyn_sqrt", "grail_dyn_half", "grail_fixed8")]
    out = []
    for h in lowest_and_ra("c09.cpp", ss, shards=3 if tier == "thorough" else 1):
        if h.name in C09_BOUNDS: h.defines += tier_bounds(C09_BOUNDS[h.name])
        out.append(h)
    for n in ("insertion", "selection", "merge", "mel"): out.append(lists_harness("c09.cpp", n, C09_BOUNDS.get(n + "_lists"), tier_bounds))
    return out
register("C09", "exploration",
  "every case is one sort whose comparisons, projections, moves and iterator steps are counted and compared with a fixed multiple of the documented bound (n log n, n^2/2); adversary cases build the worst input during the sort; every execution is non-trivial",
  c09,
  technique="bounded exhaustive exploration of structured input spaces of growing size plus McIlroy's adversary (which explores the comparator's answers), exact operation counters",
  note="The documentation gives no constants: the allowed multiple is about twice the largest one measured on the tree for the same spaces, so a change of growth class is detected, a change of a few per cent is not.")

# ---------------------------------------------------------------- C32
C32_BOUNDS = {   # measured on the tree: bytes per unit of the documented class (n < 512, n >= 512; then the same without heap memory)
  'adaptive_shivers_ra': [23.8, 13.7, 0.0, 0.0],
  'block_ra': [13048.0, 13048.0, 13016.0, 13064.0],
  'cartesian_tree_fwd': [60.4, 58.6, 0.0, 0.0],
  'cartesian_tree_ra': [60.4, 58.6, 0.0, 0.0],
  'd_ary_heap_3_ra': [232.0, 232.0, 184.0, 184.0],
  'default_fwd': [68.6, 56.8, 30.9, 23.5],
  'default_ra': [183.8, 218.6, 183.8, 199.2],
  'drop_merge_bidi': [66.4, 73.0, 0.0, 0.0],
  'drop_merge_ra': [66.4, 73.0, 0.0, 0.0],
  'grail_ra': [888.0, 888.0, 856.0, 856.0],
  'heap_ra': [328.0, 328.0, 312.0, 312.0],
  'insertion_bidi': [200.0, 200.0, 184.0, 184.0],
  'insertion_ra': [200.0, 200.0, 184.0, 184.0],
  'mel_fwd': [71.6, 64.9, 0.0, 0.0],
  'mel_ra': [71.6, 64.9, 0.0, 0.0],
  'merge_insertion_ra': [99.0, 67.0, 0.0, 0.0],
  'merge_fwd': [31.3, 20.5, 220.0, 199.4],
  'merge_ra': [25.3, 20.0, 249.3, 229.6],
  'pdq_ra': [183.8, 218.6, 183.8, 199.2],
  'poplar_ra': [114.7, 105.5, 0.0, 0.0],
  'quick_merge_fwd': [16.5, 11.3, 13.1, 8.3],
  'quick_merge_ra': [120.8, 107.1, 109.5, 98.1],
  'quick_fwd': [74.9, 59.1, 28.2, 21.3],
  'quick_ra': [61.5, 52.4, 20.6, 21.9],
  'selection_fwd': [168.0, 168.0, 136.0, 136.0],
  'selection_ra': [168.0, 168.0, 136.0, 136.0],
  'slab_bidi': [87.2, 74.6, 0.0, 0.0],
  'slab_ra': [87.2, 74.6, 0.0, 0.0],
  'smooth_ra': [424.0, 424.0, 408.0, 408.0],
  'spin_ra': [19.7, 13.8, 0.0, 0.0],
  'splay_fwd': [51.4, 48.4, 0.0, 0.0],
  'splay_ra': [51.4, 48.4, 0.0, 0.0],
  'split_ra': [22.4, 14.2, 249.3, 216.2],
  'std_ra': [353.2, 280.1, 310.7, 244.8],
  'tim_ra': [23.2, 13.7, 0.0, 0.0],
  'verge_bidi': [17.6, 13.4, 0.0, 0.0],
  'verge_ra': [17.6, 13.4, 0.0, 0.0],
  'wiki_ra': [13048.0, 13048.0, 13016.0, 13064.0],
  'drop_merge_adapter_pdq_ra': [66.4, 73.0, 0.0, 0.0],
  'drop_merge_adapter_quick_bidi': [65.5, 72.6, 0.0, 0.0],
  'drop_merge_adapter_quick_ra': [65.5, 72.5, 0.0, 0.0],
  'split_adapter_heap_ra': [21.2, 12.9, 40.7, 22.7],
  'split_adapter_quick_merge_bidi': [21.5, 13.4, 35.8, 19.1],
  'split_adapter_quick_merge_ra': [24.1, 13.8, 40.7, 22.7],
  'verge_adapter_poplar_ra': [17.5, 13.4, 0.0, 0.0],
  'verge_adapter_merge_bidi': [27.2, 20.5, 0.0, 0.0],
  'verge_adapter_merge_ra': [26.9, 20.5, 0.0, 0.0],
  'quick__indirect_adapter_fwd': [40.1, 22.9, 0.0, 0.0],
  'quick__indirect_adapter_ra': [29.2, 14.2, 0.0, 0.0],
  'spin__indirect_adapter_ra': [20.5, 13.9, 0.0, 0.0],
  'merge__schwartz_adapter_fwd': [44.7, 42.0, 0.0, 0.0],
  'merge__schwartz_adapter_ra': [44.7, 42.0, 0.0, 0.0],
  'slab__stable_adapter_bidi': [123.8, 107.3, 0.0, 0.0],
  'slab__stable_adapter_ra': [123.8, 107.3, 0.0, 0.0],
  'quick_merge__stable_adapter_fwd': [31.5, 18.1, 0.0, 0.0],
  'quick_merge__stable_adapter_ra': [31.5, 18.1, 0.0, 0.0],
  'tim__out_of_place_adapter_fwd': [48.0, 37.6, 0.0, 0.0],
  'tim__out_of_place_adapter_ra': [48.2, 37.6, 0.0, 0.0],
  'wiki_fixed16_ra': [1192.0, 1208.0, 0.0, 0.0],
  'grail_fixed8_ra': [1176.0, 1176.0, 0.0, 0.0],
  'wiki_dyn_sqrt_ra': [135.5, 60.3, 0.0, 0.0],
  'grail_dyn_sqrt_ra': [162.4, 67.9, 0.0, 0.0],
  'grail_dyn_half_ra': [29.6, 14.0, 0.0, 0.0],
  'insertion_lists': [152.0, 152.0, 0.0, 0.0],
  'selection_lists': [120.0, 120.0, 0.0, 0.0],
  'merge_lists': [86.3, 78.9, 0.0, 0.0],
  'mel_lists': [71.6, 64.9, 0.0, 0.0],
}
def c32(tier):
    log = {"pdq", "poplar", "std", "quick_merge", "default"}
    one = {"d_ary_heap_3", "grail", "heap", "insertion", "selection", "smooth", "wiki", "block", "grail_fixed8", "wiki_fixed16"}
    ss = [s for s in SORTERS if s.name not in ("d_ary_heap_2", "d_ary_heap_4", "d_ary_heap_7")] + STD_ADAPTED[:6] + [BY[n] for n in ("quick__indirect_adapter", "spin__indirect_adapter", "merge__schwartz_adapter", "slab__stable_adapter", "quick_merge__stable_adapter", "tim__out_of_place_adapter", "wiki_fixed16", "grail_fixed8", "wiki_dyn_sqrt", "grail_dyn_sqrt", "grail_dyn_half")]
    out = []
    for h in lowest_and_ra("c32.cpp", ss, shards=2 if tier == "thorough" else 1):
        n = h.name.rsplit("_", 1)[0]
        ra = h.name.endswith("_ra")
        cls = 4 if n.endswith("_dyn_sqrt") else 0 if n in one else 1 if n in log and ra else 2 if n == "quick" or n in log else 3
        nomem = cls if cls != 3 else 1 if n in ("merge", "split") else 2      # without memory: documented log n, or unspecified
        s = BY[n]
        h.defines += ["MEM=%d" % cls, "NOMEM=%d" % nomem, "SLOW=%d" % (s.worst == "n2" or n == "merge_insertion")]
        if h.name in C32_BOUNDS:
            b = C32_BOUNDS[h.name]
            f = lambda i: "{%.1f, %.1f}" % (b[i] * 2.5 + 32, b[i + 1] * 2.5 + 32)
            h.defines += ["BOUND=" + f(0), "NOMEM_BOUND=" + f(2)]
        out.append(h)
    for n, cls in (("insertion", 0), ("selection", 0), ("merge", 1), ("mel", 3)):
        s = BY[n]
        h = Harness(n + "_lists", "c32.cpp", [d for d in s.defines() if not d.startswith("SEXPR")] + ["SEXPR=cppsort::container_aware_adapter<%s>{}" % s.expr[:-2], "MEM=%d" % cls, "NOMEM=0", "LISTS=1", "SLOW=%d" % (s.worst == "n2"), "IT_CAT=2"], s.includes() + ["cpp-sort/adapters/container_aware_adapter.h"], weight=s.w)
        if h.name in C32_BOUNDS:
            b = C32_BOUNDS[h.name]
            h.defines += ["BOUND={%.1f, %.1f}" % (b[0] * 2.5 + 32, b[1] * 2.5 + 32)]
        out.append(h)
    return out
register("C32", "exploration",
  "every case is one sort whose peak heap use and deepest stack are measured and compared with a fixed multiple of the documented memory class (1, log n, log^2 n, sqrt n for a buffer of that size, n); adversary cases build the worst input during the sort; every execution is non-trivial",
  c32,
  technique="bounded exhaustive exploration of structured input spaces of growing size plus McIlroy's adversary, with an instrumented heap and stack depth measured in every callback",
  note="The documentation gives no constants: the allowed multiple is 2.5 times the largest one measured on the tree for the same spaces, so a change of growth class is detected, a change of a few per cent is not.")

# ---------------------------------------------------------------- C31
C31_BOUNDS = {   # measured on the tree: comparisons and iterator steps per unit of the documented time, bytes per unit of the documented memory
  'block/bidirectional': [3.069, 0.54, 16.848],
  'block/forward': [3.069, 0.54, 16.848],
  'block/random access': [3.069, 0.358, 16.848],
  'dis/bidirectional': [4.986, 2.992, 8.875],
  'dis/forward': [1.999, 2.228, 264.0],
  'dis/random access': [4.986, 1.995, 8.875],
  'dis/without memory': [1.999, 2.228, 264.0],
  'enc/bidirectional': [0.763, 0.188, 12.625],
  'enc/forward': [0.763, 0.188, 12.625],
  'enc/random access': [0.763, 0.188, 12.625],
  'exc/bidirectional': [1.86, 0.364, 21.361],
  'exc/forward': [1.86, 0.364, 21.361],
  'exc/random access': [1.86, 0.182, 21.361],
  'ham/bidirectional': [1.925, 0.545, 14.417],
  'ham/forward': [1.925, 0.545, 14.417],
  'ham/random access': [1.925, 0.364, 14.417],
  'inv/bidirectional': [1.0, 0.364, 16.909],
  'inv/forward': [1.0, 0.364, 17.03],
  'inv/random access': [1.0, 0.182, 17.03],
  'max/bidirectional': [3.272, 0.545, 14.417],
  'max/forward': [3.272, 0.545, 14.417],
  'max/random access': [3.272, 0.364, 14.417],
  'mono/bidirectional': [1.994, 0.998, 232.0],
  'mono/forward': [1.994, 0.998, 232.0],
  'mono/random access': [1.994, 0.998, 232.0],
  'osc/bidirectional': [3.478, 0.722, 20.417],
  'osc/forward': [3.478, 0.722, 20.417],
  'osc/random access': [3.478, 0.54, 20.417],
  'osc/without memory': [3.495, 2.008, 248.0],
  'rem/bidirectional': [0.847, 0.188, 22.669],
  'rem/forward': [0.847, 0.188, 22.669],
  'rem/random access': [0.847, 0.188, 22.669],
  'runs/bidirectional': [0.998, 1.996, 110.0],
  'runs/forward': [0.998, 1.996, 110.0],
  'runs/random access': [0.998, 1.996, 110.0],
  'sus/bidirectional': [0.847, 0.188, 22.118],
  'sus/forward': [0.847, 0.188, 22.118],
  'sus/random access': [0.847, 0.188, 22.118],
}
C31_DOC = [("block", 1, 3, 0, -1), ("dis", 0, 3, 1, 1), ("enc", 1, 3, 0, -1), ("exc", 1, 3, 0, -1), ("ham", 1, 3, 0, -1), ("inv", 1, 3, 0, -1), ("max", 1, 3, 0, -1),
           ("mono", 0, 0, 0, -1), ("osc", 1, 3, 0, 2), ("rem", 1, 3, 0, -1), ("runs", 0, 0, 0, -1), ("sus", 1, 3, 0, -1)]
def c31(tier):
    out = []
    b = lambda n, f: "Bound{%g, %g, %g}" % tuple(C31_BOUNDS.get("%s/%s" % (n, f), [1e9] * 3))
    for k in range(0, 12, 3):
        g = C31_DOC[k:k + 3]
        ps = " ".join("P(%s, %d, %d, %d, %d, %s)" % (*p, ", ".join(b(p[0], f) for f in ("forward", "bidirectional", "random access", "without memory"))) for p in g)
        out.append(Harness("_".join(p[0] for p in g), "c31.cpp", ["PS=" + ps], [], weight=2, shards=3))
    return out
register("C31", "exploration",
  "every case is one call of one probe whose comparisons, projections, iterator steps, peak heap use and stack depth are measured and compared with a fixed multiple of the documented complexity; every execution is non-trivial",
  c31,
  technique="bounded exhaustive exploration of structured input spaces of growing size x iterator categories x available memory, exact operation counters",
  note="The documentation gives no constants: the allowed multiple is about twice the largest one measured on the tree for the same spaces, so a change of growth class is detected.")

# ---------------------------------------------------------------- C10
ADAPT_OF = {"adaptive_shivers": 1, "tim": 1, "verge": 1, "verge_adapter_poplar": 1, "verge_adapter_merge": 1, "stable_verge_merge": 1,
            "drop_merge": 2, "split": 2, "drop_merge_adapter_pdq": 2, "drop_merge_adapter_quick": 2, "split_adapter_heap": 2, "split_adapter_quick_merge": 2,
            "mel": 3, "insertion": 4, "slab": 5}
C10_BOUNDS = {   # measured on the tree: comparisons, moves, iterator steps on sorted input; then on presorted input
  'adaptive_shivers_ra': [0.999, 0.0, 1.999, 1.423, 4.387, 9.177],
  'block_ra': [2.914, 3.872, 8.364, 0.0, 0.0, 0.0],
  'cartesian_tree_fwd': [0.999, 1.999, 2.998, 0.0, 0.0, 0.0],
  'cartesian_tree_ra': [0.999, 1.999, 1.999, 0.0, 0.0, 0.0],
  'default_fwd': [2.333, 0.261, 5.997, 0.0, 0.0, 0.0],
  'default_ra': [5.837, 0.481, 6.848, 0.0, 0.0, 0.0],
  'drop_merge_bidi': [0.999, 0.0, 2.998, 1.982, 1.893, 5.946],
  'drop_merge_ra': [0.999, 0.0, 2.998, 1.982, 1.893, 5.946],
  'insertion_bidi': [0.999, 0.0, 1.999, 0.994, 0.776, 1.987],
  'insertion_ra': [0.999, 0.0, 1.999, 0.994, 0.776, 1.987],
  'insertion_lists': [0.999, 0.0, 0.0, 3.329, 0.0, 0.0],
  'mel_lists': [0.999, 1.999, 0.0, 1.788, 0.997, 0.0],
  'mel_fwd': [0.999, 1.999, 2.998, 1.788, 0.997, 1.495],
  'mel_ra': [0.999, 1.999, 1.999, 1.788, 0.997, 0.997],
  'pdq_ra': [5.837, 0.481, 6.848, 0.0, 0.0, 0.0],
  'quick_fwd': [2.333, 0.261, 5.997, 0.0, 0.0, 0.0],
  'quick_ra': [2.333, 0.103, 2.333, 0.0, 0.0, 0.0],
  'slab_bidi': [0.999, 1.999, 2.998, 5.182, 3.408, 6.89],
  'slab_ra': [0.999, 1.999, 1.999, 5.182, 3.408, 6.201],
  'smooth_ra': [3.995, 0.0, 13.297, 0.0, 0.0, 0.0],
  'spin_ra': [3.435, 5.953, 7.92, 0.0, 0.0, 0.0],
  'splay_fwd': [0.999, 1.999, 2.998, 0.0, 0.0, 0.0],
  'splay_ra': [0.999, 1.999, 1.999, 0.0, 0.0, 0.0],
  'split_ra': [1.999, 2.998, 2.998, 1.982, 3.964, 6.938],
  'tim_ra': [0.999, 0.0, 1.999, 1.423, 4.387, 9.177],
  'verge_bidi': [4.548, 0.257, 9.348, 4.649, 6.151, 9.943],
  'verge_ra': [3.679, 0.481, 4.664, 3.373, 2.303, 4.49],
  'wiki_ra': [2.914, 3.872, 8.364, 0.0, 0.0, 0.0],
  'drop_merge_adapter_pdq_ra': [0.999, 0.0, 2.998, 1.982, 1.893, 5.946],
  'drop_merge_adapter_quick_bidi': [0.999, 0.0, 2.998, 1.982, 1.893, 5.946],
  'drop_merge_adapter_quick_ra': [0.999, 0.0, 2.998, 1.982, 1.893, 5.946],
  'split_adapter_heap_ra': [1.999, 2.998, 2.998, 1.982, 3.964, 6.938],
  'split_adapter_quick_merge_bidi': [1.999, 2.998, 2.998, 1.982, 3.964, 7.929],
  'split_adapter_quick_merge_ra': [1.999, 2.998, 2.998, 1.982, 3.964, 6.938],
  'verge_adapter_poplar_ra': [3.135, 0.0, 7.254, 5.851, 4.42, 9.376],
  'verge_adapter_merge_bidi': [1.743, 0.0, 4.4, 4.24, 4.99, 9.967],
  'verge_adapter_merge_ra': [1.743, 0.0, 2.65, 4.131, 4.99, 8.616],
  'stable_verge_merge_bidi': [1.743, 0.0, 4.4, 4.24, 4.99, 9.967],
  'stable_verge_merge_ra': [1.743, 0.0, 2.65, 4.131, 4.99, 8.616],
  'wiki_fixed16_ra': [5.643, 14.172, 21.682, 0.0, 0.0, 0.0],
  'wiki_dyn_sqrt_ra': [5.451, 6.256, 16.65, 0.0, 0.0, 0.0],
}
def c10_bounds(b):
    f = lambda i, k, c: "{%.2f, %.2f}" % (b[i] * k + c, b[i + 3] * k + c)
    return ["BOUND_C=" + f(0, 1.6, .5), "BOUND_M=" + f(1, 1.6, .5), "BOUND_I=" + f(2, 2, 1)]
def c10(tier):
    out = []
    for s in [s for s in SORTERS + STD_ADAPTED if s.best_n and s.name != "quick_merge"] + [BY["wiki_fixed16"], BY["wiki_dyn_sqrt"]]:
        for h in lowest_and_ra("c10.cpp", [s], defines=["ADAPT=%d" % ADAPT_OF.get(s.name, 0)], shards=2 if tier == "thorough" else 1):
            if s.name == "quick" or h.name == "default_fwd": h.defines.append("FEW_ONLY=1")
            if h.name in C10_BOUNDS: h.defines += c10_bounds(C10_BOUNDS[h.name])
            out.append(h)
    for n in ("insertion", "mel"): out.append(lists_harness("c10.cpp", n, C10_BOUNDS.get(n + "_lists"), c10_bounds, ["ADAPT=%d" % ADAPT_OF.get(n, 0)]))
    return out
register("C10", "exploration",
  "every case is one sort of an already sorted input (every size of the range x 6 tie layouts) or of an input with a given amount of disorder, operations counted exactly; non-trivial = more than one element",
  c10,
  technique="bounded exhaustive exploration over all sizes of sorted inputs and over disorder parameters, exact operation counters against linear (or n log k) bounds",
  note="The allowed multiple is 1.6 times the largest one measured on the tree. quick_merge_sorter is left out (its documented best case is not reached on sorted input), quick_sorter is judged on its own best case (few distinct values).")

# ---------------------------------------------------------------- C11
def xlist(ns): return " ".join("X(%d)" % n for n in ns)
FAMILIES = (("low_comparisons_sorter", "fixed/low_comparisons_sorter.h"), ("low_moves_sorter", "fixed/low_moves_sorter.h"),
            ("sorting_network_sorter", "fixed/sorting_network_sorter.h"), ("merge_exchange_network_sorter", "fixed/merge_exchange_network_sorter.h"),
            ("odd_even_merge_network_sorter", "fixed/odd_even_merge_network_sorter.h"))
def c11(tier):
    out = []
    t = tier == "thorough"
    def add(i, nm, ns, ps=(), sh=1, w=1.0):
        fam, hdr = FAMILIES[i]
        out.append(Harness("%s_%s" % (fam, nm), "c11.cpp", ["FAMILY=" + fam, 'FAMILY_NAME="%s"' % fam, "NS=" + xlist(ns), "PS=" + xlist(ps),
                   "STABLE_UPTO=%d" % (3 if i == 2 else -1)], ["cpp-sort/" + hdr], shards=sh, weight=w))
    for i in (0, 1):
        add(i, "small", range(0, 8), range(2, 10), sh=2 if t else 1)
        add(i, "mid", range(8, 11), [10] + ([11] if t else []), sh=4 if t else 1, w=2)
        add(i, "large", range(11, 14), [], sh=4 if t else 1, w=3)
    add(1, "xl", [14, 17, 20, 33], [], sh=2 if t else 1, w=3)
    add(2, "small", range(0, 9), range(2, 10), w=2)
    for a, b in ((9, 12), (12, 15), (15, 18), (18, 21), (21, 24)): add(2, "m%d" % a, range(a, b), [], sh=2 if t else 1, w=3)
    for a in range(24, 65, 6 if t else 6): add(2, "l%d" % a, range(a, min(a + 6, 65)), [], w=4)
    add(3, "small", range(0, 10), [2, 3, 5, 8, 9], w=2)
    for a, b in ((10, 14), (14, 18), (18, 22)): add(3, "m%d" % a, range(a, b), w=3)
    for ns in ((23, 24, 25, 31), (32, 33, 40), (47, 48, 55, 63), (64, 65, 100)): add(3, "l%d" % ns[0], ns, w=4)
    add(4, "small", (0, 1, 2, 4, 8), (2, 4, 8), w=2); add(4, "large", (16, 32, 64), w=4)
    return out
register("C11", "exploration",
  "every case is one call of a fixed-size sorter of that size: all weak orders up to 7, all 0-1 words up to 14, all permutations up to 10, structured spaces above, with move-only instrumented elements, plain integers and floating point numbers; non-trivial = the input is not already sorted",
  c11,
  technique="bounded exhaustive exploration of the implementation: all weak orders, all binary words and all permutations of each small size, structured spaces for larger sizes",
  note="For the networks, C12 closes the gap for larger sizes by the zero-one principle. Complete within the stated spaces.")

# ---------------------------------------------------------------- C12
def c12(tier):
    out = []
    t = tier == "thorough"
    def add(i, ns, w=1.0, lists=0, unroll=0):
        fam, hdr = FAMILIES[i]
        ns = list(ns)
        out.append(Harness("%s_%d" % (fam, ns[0]), "c12.cpp", ["FAMILY=" + fam, 'FAMILY_NAME="%s"' % fam, "NS=" + xlist(ns), "NET_DOC=%d" % (i == 2), "LISTS=%d" % lists, "UNROLL_MAX=%d" % unroll],
                   ["cpp-sort/" + hdr], weight=w, flags=["-O1", "-ftemplate-depth=2000", "-fconstexpr-loop-limit=1000000"]))
    for a, b in ((0, 10), (10, 15), (15, 19), (19, 23), (23, 27), (27, 31), (31, 34), (34, 38), (38, 42), (42, 46), (46, 49), (49, 52), (52, 54), (54, 57), (57, 60), (60, 63), (63, 65)):
        add(2, range(a, b), w=3 + a / 20, lists=a == 0, unroll=12)
    for a, b in ((0, 12), (12, 18), (18, 24), (24, 29), (29, 33)): add(3, range(a, b), w=3, unroll=8)
    for ns in ((33, 37, 40, 44), (47, 48, 49, 55), (56, 60, 63), (64, 65, 100)): add(3, ns, w=4)
    if t: 
        for ns in ((34, 35, 36, 38, 39), (41, 42, 43, 45, 46), (50, 51, 52, 53, 54), (57, 58, 59, 61, 62)): add(3, ns, w=4)
    add(4, (0, 1, 2, 4, 8, 16), unroll=8); add(4, (32, 64), w=3)
    return out
register("C12", "model_checking",
  "states are the zero-one vectors reachable in the compare-exchange system given by index_pairs(), transitions its compare-exchange steps; a trace is one execution of the real sorter or of swap_index_pairs whose comparisons are compared with the list",
  c12,
  technique="explicit-state enumeration of all zero-one states of every network (component-wise, exact), plus conformance: comparison traces of the implementation equal the list",
  note="By the zero-one principle complete for every network up to N=64 (merge_exchange: the listed sizes). The implementation is bound to the model by trace equality on the explored inputs.")

# ---------------------------------------------------------------- C13
def c13(tier):
    out = []
    t = tier == "thorough"
    def add(i, nm, ns, weight=0, traits=0, dmax=-1, w=1.0):
        fam, hdr = FAMILIES[i]
        out.append(Harness("%s_%s" % (fam, nm), "c13.cpp", ["FAMILY=" + fam, 'FAMILY_NAME="%s"' % fam, "NS=" + xlist(ns), "WEIGHT=%d" % weight, "TRAITS=%d" % traits, "DOMAIN_MAX=%d" % dmax],
                   ["cpp-sort/" + hdr], weight=w, flags=["-O2"]))
    for i in (0, 1):
        add(i, "w", range(2, 11), weight=i + 1, w=5)
        for n in (11, 12) + ((13,) if t else ()): add(i, "w%d" % n, [n], weight=i + 1, w=8 + n)
    add(0, "traits", range(0, 14), traits=1, dmax=13, w=3)
    add(1, "traits", range(0, 15), traits=1, w=3)
    for a in range(0, 65, 13): add(2, "traits%d" % a, range(a, a + 13), traits=1, dmax=64, w=3)
    add(3, "traits", range(0, 34), traits=1, w=3); add(4, "traits", (0, 1, 2, 4, 8, 16, 32), traits=1, w=3)
    return out
register("C13", "exploration",
  "every permutation of N distinct elements is sorted once and its comparisons or moves are counted exactly; the sums are compared with the documented weights; trait claims are compared with the observed stability over all tie patterns",
  c13,
  technique="complete enumeration of all N! permutations (N<=12, thorough: 13) with exact operation counters; complete enumeration of tie patterns for the stability claims",
  note="Exact for N<=12 (quick) and N<=13 (thorough), which is every size in the documented tables. A swap counts as three moves.")

# ---------------------------------------------------------------- C14
def c14(tier):
    out = []
    t = tier == "thorough"
    def add(fam, group, std="c++17", w=1.0, defs=()):
        fn = ("counting", "ska", "spread")[fam]
        out.append(Harness("%s_%d" % (fn, group), "c14.cpp", ["FAM=%d" % fam, "GROUP=%d" % group, 'FNAME="%s"' % fn] + list(defs), [], std=std, flags=SAN, shards=2 if t or fam == 2 and group in (2, 4) else 1, weight=w))
    for g in (0, 1, 2, 3): add(0, g, std=("c++20", "c++17", "c++14", "c++20")[g], w=2)
    for g in (0, 1, 2, 3, 4, 5): add(1, g, std="c++14", w=3)
    for g in (6, 7, 8, 9): add(1, g, w=5)
    add(1, 10, w=2)
    for g in (0, 1, 2, 4): add(2, g, w=2)
    for g in (5, 10): add(2, g, w=2, defs=["REVERSIBLE=1"])
    return out
register("C14", "exploration",
  "every case sorts one collection of keys of one type (values chosen by rank in the order of the type, by byte position, by subsets of boundary values, by words over critical bytes), directly, through a projection and over a deque; non-trivial = the input is not already sorted",
  c14,
  technique="bounded exhaustive exploration of the implementation: every byte value at every byte position, every pair of byte values, every 16-bit value, every subset of boundary values, ranges of every magnitude, all words over critical bytes; ASan/UBSan build",
  note="Complete within the stated spaces. Wide keys can not be enumerated completely: they are covered per byte position, which is what the radix passes depend on. NaNs are left out.")

# ---------------------------------------------------------------- C15
def c15(tier):
    out = []
    t = tier == "thorough"
    for fam in ("grail", "wiki"):
        inc = ["cpp-sort/sorters/%s_sorter.h" % fam]
        base = ["FAMILY=%s_sorter" % fam]
        out.append(Harness(fam + "_runtime", "c15.cpp", base + ["RUNTIME=1"], inc, shards=8 if t else 4, weight=6))
        for i, ps in enumerate((("UT::fixed_buffer<0>", "UT::fixed_buffer<1>", "UT::fixed_buffer<2>"), ("UT::fixed_buffer<3>", "UT::fixed_buffer<7>", "UT::fixed_buffer<8>"),
                                ("UT::fixed_buffer<16>", "UT::fixed_buffer<33>", "UT::fixed_buffer<512>"), ("UT::dynamic_buffer<UT::half>", "UT::dynamic_buffer<UT::sqrt>", "UT::dynamic_buffer<UT::log>"),
                                ("UT::dynamic_buffer<UT::identity>", "UT::dynamic_buffer<Zero>", "UT::dynamic_buffer<One>"), ("UT::dynamic_buffer<Twice>", "UT::dynamic_buffer<AllButOne>"))):
            out.append(Harness("%s_static%d" % (fam, i), "c15.cpp", base + ["RUNTIME=0", "PROVIDERS=" + " ".join("P(%s);" % p for p in ps)], inc, flags=SAN, shards=2 if t else 1, weight=3))
        out.append(Harness(fam + "_default", "c15.cpp", base + ["RUNTIME=0", "PROVIDERS=P();"], inc, flags=SAN))
    return out
register("C15", "exploration",
  "every case is one sort with one input, one buffer provider and one buffer size; with the guarded provider every size from 0 to n+3 is taken for each input; non-trivial = the input is not already sorted",
  c15,
  technique="bounded exhaustive exploration of (input, buffer size) pairs on the implementation, with a guarded buffer provider whose size is the explored parameter, plus the library's providers under ASan",
  note="Complete within the stated spaces (n<=131 for all sizes; critical sizes above).")

# ---------------------------------------------------------------- C16
# unary adapters: template text, documented category of the result from that of the adapted sorter, documented stability
UNARY = {
 "counting": (C+"counting_adapter<%s>", lambda c: c, lambda s: s),
 "schwartz": (C+"schwartz_adapter<%s>", lambda c: c, lambda s: s),
 "indirect": (C+"indirect_adapter<%s>", lambda c: 0, lambda s: s),
 "stable": (C+"stable_adapter<%s>", lambda c: c, lambda s: 1),
 "make_stable": (C+"make_stable<%s>", lambda c: c, lambda s: 1),
 "oop": (C+"out_of_place_adapter<%s>", lambda c: 0, lambda s: s),
 "aware": (C+"container_aware_adapter<%s>", lambda c: c, lambda s: s),
 "drop_merge": (C+"drop_merge_adapter<%s>", lambda c: 1, lambda s: 0),
 "split": (C+"split_adapter<%s>", lambda c: max(1, c), lambda s: 0),
 "verge": (C+"verge_adapter<%s>", lambda c: max(1, c) , lambda s: 0),
 "self_sort": (C+"self_sort_adapter<%s>", lambda c: c, lambda s: s),
 "hybrid1": (C+"hybrid_adapter<%s>", lambda c: c, lambda s: s),
 "hybrid2": (C+"hybrid_adapter<"+C+"small_array_adapter<"+C+"low_comparisons_sorter>,%s>", lambda c: c, lambda s: 0),
 "hybrid3": (C+"hybrid_adapter<"+C+"insertion_sorter,%s>", lambda c: min(1, c), lambda s: s),
}
BASES = {"pdq": (C+"pdq_sorter", 2, 0), "merge": (C+"merge_sorter", 0, 1), "insertion": (C+"insertion_sorter", 1, 1)}
def nestings(chain, base):
    t, c, s = BASES[base]
    for a in reversed(chain):
        f, cf, sf = UNARY[a]; t = f % t; c = cf(c); s = sf(s)
    return 'N("%s", XX(%s), %d, %d)' % ("<".join(list(chain) + [base]), t, c, s)

# no traits on container_aware_adapter, no nested make_stable, ...: these types are not supported by the library
NOT_NESTABLE = {("counting","aware"), ("schwartz","stable"), ("schwartz","make_stable"), ("schwartz","oop"), ("indirect","schwartz"), ("stable","aware"), ("stable","hybrid2"),
                ("make_stable","stable"), ("make_stable","make_stable"), ("verge","aware"), ("self_sort","aware"), ("hybrid1","aware"), ("hybrid2","aware"), ("hybrid3","aware")}
def nestable(chain): return all(p not in NOT_NESTABLE for p in zip(chain, chain[1:]))
def c16(tier):
    out = []
    t = tier == "thorough"
    names, bases = list(UNARY), list(BASES)
    def group(prefix, chains, full, per):
        for i in range(0, len(chains), per):
            out.append(Harness("%s%d" % (prefix, i // per), "c16.cpp", ["FULL=%d" % full, "XX(...)=__VA_ARGS__", "NESTS=" + " ".join(nestings(c, b) for c, b in chains[i:i + per])], [], flags=["-O1"], weight=4 if full else 3))
    group("one", [((a,), b) for a in names for b in bases if t or (names.index(a) + bases.index(b)) % 3 == 0 or b == "merge"], 1, 4)
    if t: group("two", [((a, b), c) for a in names for b in names for c in bases if nestable((a, b))], 1, 4)
    else: group("two", [((a, b), bases[(i + j) % 3]) for i, a in enumerate(names) for j, b in enumerate(names) if nestable((a, b))], 0, 9)
    if t:
        group("three", [((a, b, c), bases[(i + j + k) % 3]) for i, a in enumerate(names) for j, b in enumerate(names) for k, c in enumerate(names) if nestable((a, b, c)) and (i + 2 * j + 3 * k) % 11 == 0], 0, 6)
    for p in range(4): out.append(Harness("stateful%d" % p, "c16s.cpp", ["PART=%d" % p], [], std=("c++17", "c++14", "c++17", "c++20")[p], weight=3))
    for p in range(7): out.append(Harness("arrays_lists%d" % p, "c16a.cpp", ["PART=%d" % p], [], weight=4))
    return out
register("C16", "exploration",
  "every case is one sort of one input through one adapter or nesting of adapters and one call form; non-trivial = the input is not already sorted",
  c16,
  technique="bounded exhaustive exploration of adapter nestings x call forms x inputs on the implementation (instrumented elements, checked iterators, identity-tracking stateful sorters)",
  note="All single adapters, all pairs of adapters the library supports (quick: over one base sorter each; thorough: over three), selected triples; small input spaces for each.")

# ---------------------------------------------------------------- C17
def sorter_type(s): return s.expr[:-2]
def c17(tier):
    t = tier == "thorough"
    out = []
    names = [s for s in SORTERS if t or s.name in ("pdq", "merge", "heap", "insertion", "mel", "quick", "std", "selection", "smooth", "spin", "tim", "drop_merge")]
    for i in range(0, len(names), 2):
        g = names[i:i + 2]
        out.append(Harness("_".join(x.name for x in g), "c17.cpp", ["RESULT=%d" % ("pdq" in [x.name for x in g]), "XS=" + " ".join('X("indirect<%s>", %s, %d)' % (x.name, sorter_type(x), x.stable) for x in g)],
                           sorted({h for x in g for h in x.includes()} | {"cpp-sort/sorters/merge_sorter.h"}), std=("c++17", "c++14", "c++20")[(i // 2) % 3] if "pdq" not in [x.name for x in g] else "c++17", weight=2))
    return out
register("C17", "fault_enumeration",
  "every case is one sort of one input, or one sort with a failure at one comparison, projection, allocation or element move; non-trivial = an exception was injected or the input is not already sorted",
  c17,
  technique="bounded exhaustive exploration of inputs (all permutations up to n=7/9) with complete enumeration of the failing comparison, projection, allocation or move, on the implementation with move-tracking elements",
  note="Complete within the stated spaces. The move count is compared with the cycle structure of the permutation that was performed.")

# ---------------------------------------------------------------- C18
def c18(tier):
    t = tier == "thorough"
    out = []
    names = []
    for x in SORTERS:
        if x.name in ("std", "d_ary_heap_2", "d_ary_heap_4", "d_ary_heap_7"): continue      # std_sorter: documented not to work with proxy iterators
        names.append((x, C + x.name + "_sorter<" + U + "fixed_buffer<0>>" if x.name in ("block", "wiki") else sorter_type(x)))
    for i in range(0, len(names), 2):
        g = names[i:i + 2]
        out.append(Harness("_".join(x.name for x, _ in g), "c18.cpp", ["EXTRA=%d" % (i == 0), "XS=" + " ".join('X("schwartz<%s>", %s, %d, %d)' % (x.name, ty, x.cat, x.stable) for x, ty in g)],
                           sorted({h for x, _ in g for h in x.includes()} | {"cpp-sort/utility/buffer.h"}), std=("c++17", "c++14", "c++20")[(i // 2) % 3], weight=2))
    return out
register("C18", "fault_enumeration",
  "every case is one sort of one input through schwartz_adapter plus one direct sort of the same input, or one sort with a failure at one comparison, projection, allocation or element move; non-trivial = an exception was injected or the input is not already sorted",
  c18,
  technique="bounded exhaustive exploration of inputs on the implementation, differential against the adapted sorter, with per-element projection counters and complete enumeration of the failing comparison, projection, allocation or move",
  note="Complete within the stated spaces, for every sorter of the library that supports proxy iterators.")

# ---------------------------------------------------------------- C19
def c19(tier):
    t = tier == "thorough"
    out = []
    for k, x in enumerate(SORTERS):
        if x.name in ("d_ary_heap_2", "d_ary_heap_7"): continue
        extra = x.name in ("insertion", "pdq") or t and x.name not in ("std",)
        defs = ["EXTRA=%d" % extra, "S_DC=%d" % x.dc]
        ty = C + x.name + "_sorter<" + U + "fixed_buffer<0>>" if x.name in ("block", "wiki") else sorter_type(x)
        out.append(Harness(x.name, "c19.cpp", defs + ['XS=X("%s", %s, %d)' % (x.name, ty, x.cat)], x.includes() + ["cpp-sort/utility/buffer.h"], std=("c++17", "c++14", "c++20")[k % 3], weight=4 if extra else x.w))
    return out
register("C19", "exploration",
  "every case is one sort of one input through a counting adapter or metric and one direct sort of the same input; non-trivial = the input is not already sorted",
  c19,
  technique="bounded exhaustive exploration of inputs on the implementation, differential against the adapted sorter, with independent operation counters and operation-sequence hashes",
  note="Complete within the stated spaces. A swap counts as three moves, as documented.")

# ---------------------------------------------------------------- C20
def c20(tier):
    t = tier == "thorough"
    return [Harness(n, "c20.cpp", ["PART=%d" % p], [], std=("c++17", "c++14", "c++20", "c++17", "c++14")[p], flags=SAN if p < 4 else ["-O1"], weight=4, shards=(8 if t else 2) if p < 4 else 1)
            for p, n in enumerate(("insertion", "mel", "merge", "selection", "user_containers"))]
register("C20", "fault_enumeration",
  "every case is one sort of one list, or one sort with a failure at one comparison, projection or allocation; non-trivial = an exception was injected or the input is not already sorted",
  c20,
  technique="bounded exhaustive exploration of inputs x call forms on real std::list/std::forward_list (node identity, iterator identity and allocator identity tracked), complete enumeration of the failing comparison, projection or allocation; all 16 subsets of user-provided dedicated algorithms",
  note="Complete within the stated spaces. After an exception the list is consistent and nothing leaks; that no element is lost is not documented and not demanded.")

# ---------------------------------------------------------------- C23
def c23(tier):
    out = []
    groups = [[("block", 0), ("dis", 1)], [("enc", 0), ("exc", 0), ("ham", 0)], [("inv", 0), ("max", 0), ("mono", 0)], [("osc", 1), ("rem", 0)], [("runs", 0), ("sus", 0)]]
    for k, g in enumerate(groups):
        out.append(Harness("_".join(n for n, _ in g), "c23.cpp", ["PS=" + " ".join("P(%s, %d)" % p for p in g)], ["cpp-sort/probes.h"], std=("c++17", "c++14", "c++20")[k % 3], weight=4, shards=8 if tier == "thorough" else 2))
    for k in range(3): out.append(Harness("long%d" % k, "c23l.cpp", ["PART=%d" % k], [], weight=3))
    return out
register("C23", "exploration",
  "every case is one call of one probe on one sequence in one call form; non-trivial = the sequence is not already sorted",
  c23,
  technique="bounded exhaustive exploration of sequences (all weak orders, permutations and words within the bounds, structured spaces above) x call forms x iterator categories x available memory on the implementation, against direct evaluations of the definitions",
  note="Complete within the stated spaces. Exc and Block are compared exactly on distinct elements, and with the bounds over all tie-breaks otherwise.")

# ---------------------------------------------------------------- C24
def c24(tier):
    return [Harness(n, "c24.cpp", ["PART=%d" % p], [], std=("c++17", "c++14", "c++20", "c++17")[p], weight=3, shards=8 if tier == "thorough" else 1) for p, n in enumerate(("weak_orders", "permutations", "structured", "maxima"))]
register("C24", "exploration",
  "every case is one value of one probe on one sequence or on a transformation of it; non-trivial = the sequence is not already sorted",
  c24,
  technique="bounded exhaustive exploration of sequences on the implementation: bounds, relations between measures and invariances checked on every one; maxima searched over all permutations (n<=7) and over witness families (every n up to 160/400)",
  note="Complete within the stated spaces.")

# ---------------------------------------------------------------- C25
def c25(tier):
    return [Harness(n, "c25.cpp", ["XX=%d" % i], [], std=s, weight=1) for i, (n, s) in enumerate((("cpp14", "c++14"), ("cpp17", "c++17"), ("cpp20", "c++20")))]
register("C25", "exploration",
  "every case is one comparison of a pair or triple of values with one comparator, or one sort with it",
  c25,
  technique="bounded exhaustive exploration: all pairs (and triples of a subset) over boundary alphabets of every arithmetic type, all pairs of 8-bit types, against the definition of the orders",
  note="Complete within the alphabets. Quiet and signalling NaNs are documented as equivalent.")

# ---------------------------------------------------------------- C26
def c26(tier):
    t = tier == "thorough"
    return [Harness(n, "c26.cpp", ["PART=%d" % p], [], std=("c++14", "c++17", "c++20")[p], weight=2, shards=8 if t else (4, 2, 2)[p]) for p, n in enumerate(("natural", "natural_forms", "case_insensitive"))]
register("C26", "exploration",
  "every case is one comparison of a pair of strings in one call form, or one sort of a collection of strings",
  c26,
  technique="bounded exhaustive exploration: all pairs of strings up to a length over several alphabets (and triples for the axioms), on bounds-checked forward sequences, against tokenising and folding references, under several locales",
  note="Complete within the alphabets and lengths. Characters are ordered by the comparison of their type.")

# ---------------------------------------------------------------- C27
def c27(tier):
    t = tier == "thorough"
    stds = ("c++14", "c++17", "c++20")
    out = []
    for b in range(10):
        for o in range(5 if t else 1): out.append(Harness("base%d_%d" % (b, o), "c27.cpp", ["PART=%d" % b, "DEPTH=%d" % (4 if t and o == 0 else 3), "OPS=%d" % o], [], std=stds[b % 3], flags=["-O0"], weight=4))
    for p in range(12):
        for s in (stds if t else [stds[(p + 2) % 3]]): out.append(Harness("pipe%d_%s" % (p, s[3:]), "c27.cpp", ["PART=%d" % (20 + p)], [], std=s, flags=["-O0"], weight=3))
    for s in stds: out.append(Harness("other_" + s[3:], "c27.cpp", ["PART=40"], [], std=s, flags=["-O0"], weight=1))
    return out
register("C27", "exploration",
  "every case is the evaluation of one composition (a program) on one point of the domain in one form of call",
  c27,
  technique="bounded exhaustive exploration of programs: every composition of flip, not_fn and make_projection_compare up to depth 3/4 over ten kinds of callables, every pipe of up to three projections out of twelve kinds, each evaluated over a whole small domain against the expression it names",
  note="Complete within the depths, the pools of callables and the domain.")

# ---------------------------------------------------------------- C28
def c28(tier):
    t = tier == "thorough"
    out = []
    names = []
    for x in SORTERS:
        if x.name in ("d_ary_heap_2", "d_ary_heap_4", "d_ary_heap_7"): continue
        if not t and x.name in ("d_ary_heap_3", "selection", "wiki", "split", "smooth", "splay", "spin", "adaptive_shivers"): continue
        names.append((x, C + x.name + "_sorter<" + U + "fixed_buffer<0>>" if x.name in ("block", "wiki") else sorter_type(x)))
    for i in range(0, len(names), 2):
        g = names[i:i + 2]
        out.append(Harness("_".join(x.name for x, _ in g), "c28.cpp", ["PART=0", "EXTRA=%d" % (t or i == 0 or "pdq" in [x.name for x, _ in g]), "XS=" + " ".join('X("%s", %s, %d)' % (x.name, ty, x.stable) for x, ty in g)],
                           sorted({h for x, _ in g for h in x.includes()} | {"cpp-sort/utility/buffer.h"}), std=("c++17", "c++14", "c++20")[(i // 2) % 3], weight=2))
    out.append(Harness("apply_permutation", "c28.cpp", ["PART=1"], [], std="c++14", weight=1, shards=8 if t else 2))
    return out
register("C28", "fault_enumeration",
  "every case is one call of sorted_indices, sorted_iterators or apply_permutation on one input (in one call form), or one with a failure at one comparison, projection or allocation; non-trivial = an exception was injected or the input is not already sorted",
  c28,
  technique="bounded exhaustive exploration of inputs (weak orders, permutations, words, structured families; every permutation up to n=9/10 for apply_permutation) with complete enumeration of the failing comparison, projection or allocation, on the implementation with move-tracking elements",
  note="Complete within the stated spaces.")

# ---------------------------------------------------------------- C29
FS29 = ["low_comparisons_sorter<%d>" % n for n in (2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13)] + ["low_moves_sorter<%d>" % n for n in (2, 4, 7, 13, 20)] + ["sorting_network_sorter<%d>" % n for n in (2, 3, 5, 8, 13, 16, 23)] + ["merge_exchange_network_sorter<%d>" % n for n in (2, 5, 16)] + ["odd_even_merge_network_sorter<%d>" % n for n in (4, 16)]
def c29(tier):
    t = tier == "thorough"
    out = []
    names = []
    for x in SORTERS:
        if x.name in ("std", "d_ary_heap_2", "d_ary_heap_4", "d_ary_heap_7"): continue      # std_sorter: documented not to work with proxy iterators
        names.append((x, sorter_type(x)))
        if x.name == "grail": names.append((BY["grail_fixed8"], sorter_type(BY["grail_fixed8"])))
    ad = {"out_of_place_adapter<pdq_sorter>": (0, 0), "indirect_adapter<tim_sorter>": (2, 1), "indirect_adapter<quick_sorter>": (0, 0), "schwartz_adapter<merge_sorter>": (0, 1), "schwartz_adapter<pdq_sorter>": (2, 0), "stable_adapter<heap_sorter>": (2, 1),
          "stable_adapter<quick_sorter>": (0, 1), "counting_adapter<spin_sorter>": (2, 0), "drop_merge_adapter<heap_sorter>": (2, 0), "split_adapter<poplar_sorter>": (2, 0), "verge_adapter<heap_sorter>": (2, 0), "verge_adapter<merge_sorter>": (1, 0), "hybrid_adapter<tim_sorter, quick_merge_sorter>": (0, 0)}
    hd = lambda e: sorted({"cpp-sort/" + ("adapters/" if n.endswith("adapter") else "sorters/") + n + ".h" for n in __import__("re").findall(r"\w+_(?:adapter|sorter)", e)})
    groups = [names[i:i + 2] for i in range(0, len(names), 2)]
    import re
    qual = lambda e: re.sub(r"\b(\w+_(?:adapter|sorter))\b", r"cppsort::\1", e)
    jobs = [("_".join(x.name for x, _ in g), " ".join("X(\"%s\", MC_T(%s), %d, %d)" % (x.name, ty, x.cat, x.stable) for x, ty in g), sorted({h for x, _ in g for h in x.includes()} | {"cpp-sort/utility/buffer.h"})) for g in groups]
    al = list(ad.items())
    for i in range(0, len(al), 2):
        g = al[i:i + 2]
        jobs.append(("adapters%d" % i, " ".join("X(\"%s\", MC_T(%s), %d, %d)" % (e, qual(e), c, s) for e, (c, s) in g), sorted({h for e, _ in g for h in hd(e)})))
    for k, (n, xs, inc) in enumerate(jobs):
        full = t or k % 3 == 0
        out.append(Harness(n, "c29.cpp", ["MC_T(...)=__VA_ARGS__", "DIFF=" + ("int", "short", "long long")[k % 3], "FULL=%d" % full, "FUNCTIONS=0", "TS=", "FS=", "XS=" + xs], inc, std=("c++17", "c++14", "c++20")[(k + k // 3) % 3], weight=3 if full else 2))
    for i in range(0, len(FS29), 6):
        g = FS29[i:i + 6]
        out.append(Harness("fixed%d" % i, "c29.cpp", ["FULL=0", "FUNCTIONS=0", "TS=", "XS=", "FS=" + " ".join('F("%s", cppsort::%s, %s)' % (e, e, re.search(r"<(\d+)>", e).group(1)) for e in g)], ["cpp-sort/fixed_sorters.h"], std=("c++14", "c++20", "c++17")[(i // 6) % 3], weight=2))
    out.append(Harness("typed", "c29.cpp", ["FULL=0", "FUNCTIONS=0", "XS=", "FS=", "TS=" + " ".join('T("%s", cppsort::%s)' % (e, e) for e in ("ska_sorter", "spread_sorter", "integer_spread_sorter"))], ["cpp-sort/sorters/ska_sorter.h", "cpp-sort/sorters/spread_sorter.h"], std="c++17", weight=2))
    for s in ("c++14", "c++17", "c++20"): out.append(Harness("functions_" + s[3:], "c29.cpp", ["FULL=0", "FUNCTIONS=1", "XS=", "FS=", "TS="], [], std=s, weight=1))
    return out
register("C29", "exploration",
  "every case is one sort of one input through one kind of customised iterator, or one call of iter_move or iter_swap; non-trivial = the input is not already sorted",
  c29,
  technique="bounded exhaustive exploration of inputs on the implementation, through iterators that record every move and exchange: moves behind the customisation points, overwritten elements and dangling proxies are detected in every execution",
  note="Complete within the stated spaces. vector<bool> through reverse iterators only before C++20, where the standard library defines iter_move for reverse_iterator.")

# ---------------------------------------------------------------- C30
def c30(tier):
    t = tier == "thorough"
    return [Harness(n + "_" + s[3:], "c30.cpp", ["PART=%d" % p], [], std=s, flags=["-O0"] if p == 2 else [], weight=2, shards=(4 if t else 2) if p in (0, 3) else 1) for p, n in enumerate(("buffers", "metrics", "functions", "networks")) for s in ("c++14", "c++17", "c++20")]
register("C30", "exploration",
  "every case is one evaluation of one utility on one argument (or one compile-time program), or one with a failing allocation",
  c30,
  technique="bounded exhaustive exploration of arguments: every size for every buffer provider and size policy, all pairs of small values for metrics, the whole table of functions x types x qualifications for the traits, every short comparator network on every input, every small integer range, against direct definitions",
  note="Complete within the domains. log is the natural logarithm (the documentation said base 10).")

# ---------------------------------------------------------------- C22
AD22 = [("stable_adapter", "cppsort::stable_adapter<cppsort::heap_sorter>", []), ("make_stable", "cppsort::make_stable<cppsort::heap_sorter>", []), ("stable_adapter_of_stable", "cppsort::stable_adapter<cppsort::merge_sorter>", []),
        ("out_of_place", "cppsort::out_of_place_adapter<cppsort::heap_sorter>", []), ("indirect", "cppsort::indirect_adapter<cppsort::heap_sorter>", []), ("schwartz", "cppsort::schwartz_adapter<cppsort::heap_sorter>", []),
        ("self_sort", "cppsort::self_sort_adapter<cppsort::heap_sorter>", []), ("hybrid", "cppsort::hybrid_adapter<cppsort::heap_sorter,cppsort::merge_sorter>", []),
        ("container_aware", "cppsort::container_aware_adapter<cppsort::merge_sorter>", ["NOTEMP=1", "NOSTABLE=1"]), ("counting", "cppsort::counting_adapter<cppsort::heap_sorter>", []),
        ("drop_merge_adapter", "cppsort::drop_merge_adapter<cppsort::heap_sorter>", []), ("split_adapter", "cppsort::split_adapter<cppsort::heap_sorter>", []), ("verge_adapter", "cppsort::verge_adapter<cppsort::heap_sorter>", []),
        ("comparisons", "cppsort::metrics::comparisons<cppsort::heap_sorter>", []), ("projections", "cppsort::metrics::projections<cppsort::heap_sorter>", []), ("moves", "cppsort::metrics::moves<cppsort::heap_sorter>", []),
        ("running_time", "cppsort::metrics::running_time<cppsort::heap_sorter>", ["NOFPTR=1"]), ("rebind", "cppsort::rebind_iterator_category<cppsort::merge_sorter,std::random_access_iterator_tag>", [])]
FX22 = [("low_comparisons_sorter", (2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13)), ("low_moves_sorter", (2, 3, 4, 5, 8, 13)), ("sorting_network_sorter", (2, 3, 4, 5, 6, 7, 8, 9, 12, 16)), ("merge_exchange_network_sorter", (2, 3, 7, 16)), ("odd_even_merge_network_sorter", (2, 4, 8, 16))]
def c22(tier):
    t = tier == "thorough"
    stds = ("c++17", "c++14", "c++20")
    out = []
    for k in range(8):
        for s in (stds if t else [stds[(0, 2, 1, 0, 2, 0, 1, 2)[k]]]): out.append(Harness("facade%d_%s" % (k, s[3:]), "c22.cpp", ["PART=0", "FROM=%d" % (32 * k), "COUNT=32", "EXTRA=1"], [], std=s, flags=["-O0"], weight=5))
    def add(name, k, type_, defs, inc):
        for s in (stds if t or name == "default" else [stds[k % 3]]): out.append(Harness("forms_%s_%s" % (name, s[3:]), "c22.cpp", ["PART=1", 'SNAME="%s"' % name, "SEXPR=%s{}" % type_] + defs, inc, std=s, flags=["-O0"], weight=2))
    k = 0
    for x in SORTERS:
        ty = sorter_type(x)
        if x.name in ("block", "grail", "wiki"): ty = C + x.name + "_sorter<>"
        inst = [] if x.name == "default" else ["INST=cppsort::d_ary_heap_sort<%s>" % x.name.rsplit("_", 1)[1]] if x.name.startswith("d_ary_heap_") else ["INST=cppsort::%s_sort" % x.name]
        add(x.name, k, ty, inst + (["DEFAULTS"] if x.name == "default" else []), x.includes())
        for s in (stds if t else ["c++20"]): out.append(Harness("objects_%s_%s" % (x.name, s[3:]), "c22.cpp", ["PART=4", 'SNAME="%s"' % x.name, "SEXPR=%s{}" % ty, "NOSTRING=%d" % (not t and k % 4 != 0), "WIDE=%d" % (t or k % 4 == 1)] + (["LONG=%d" % (1100 if t else 200)] if x.name in ("insertion", "selection", "merge_insertion") else []), x.includes(), std=s, flags=["-O0"], weight=2))
        k += 1
    for name, ty, defs in AD22:
        add(name, k, ty, defs, ["cpp-sort/adapters.h", "cpp-sort/sorters.h", "cpp-sort/metrics.h"]); k += 1
    for name, sizes in FX22:
        for n in (sizes if t else sizes[1:2] + sizes[-1:]):
            for s in (stds if t else ["c++20"]): out.append(Harness("objects_%s_%d_%s" % (name, n, s[3:]), "c22.cpp", ["PART=4", 'SNAME="%s<%d>"' % (name, n), "SEXPR=cppsort::%s<%d>{}" % (name, n), "SIZE=%d" % n, "WIDE=1"], ["cpp-sort/fixed_sorters.h"], std=s, flags=["-O0"], weight=3))
    for w, n in enumerate(("counting_ska", "single_spread", "spread", "fixed")):
        for s in (stds if t else [("c++20", "c++17", "c++20", "c++14")[w]]): out.append(Harness("typed_%s_%s" % (n, s[3:]), "c22.cpp", ["PART=2", "WHICH=%d" % w], [], std=s, flags=["-O0"], weight=3))
    for s in stds: out.append(Harness("pointers_" + s[3:], "c22.cpp", ["PART=3"], [], std=s, flags=["-O0"], weight=1))
    return out
register("C22", "exploration",
  "every case is one call of a sorter in one call form on one input (or one call of a function object made from an implementation with one subset of overloads)",
  c22,
  technique="bounded exhaustive exploration of configurations: all 256 subsets of the overloads a sorter implementation can have x all call forms, and all library sorters and adapters x all call forms x kinds of comparison and projection x kinds of range, on all short inputs, differential against the documented overload and between the forms",
  note="Complete within the forms listed. Which overload completes a missing one is checked only where the documentation says; calls the documentation does not promise (temporaries given to container_aware_adapter, function pointers from running_time) are left out.")

# ---------------------------------------------------------------- C21
def tuples21():
    u = list(range(9)) + [10, 11, 12, 13, 14]                 # category + 3 * flavour
    return [(a,) for a in u] + [(a, b) for a in u for b in u]
BASES21 = [("stable", "Fix<true,0>", 1), ("unstable", "Fix<false,0>", 0)] + [("fickle%d" % k, "Fickle<%d>" % k, 0) for k in range(6)] + [
    ("hybrid_su", "cppsort::hybrid_adapter<Fix<true,2>,Fix<false,0>>", 0), ("hybrid_us", "cppsort::hybrid_adapter<Fix<false,2>,Fix<true,0>>", 0), ("hybrid_sus", "cppsort::hybrid_adapter<Fix<true,2>,Fix<false,1>,Fix<true,0>>", 0)]
def c21(tier):
    t = tier == "thorough"
    stds = ("c++17", "c++14", "c++20")
    out = []
    def add(name, k, defs, all_stds=False, **kw):
        for s in (stds if t or all_stds else [stds[k % 3]]): out.append(Harness("%s_%s" % (name, s[3:]), "c21.cpp", defs, [], std=s, flags=["-O0"], **kw))
    def T(l): return " ".join("T(%s)" % ",".join(map(str, x)) for x in l)
    t2 = tuples21()
    for k in range(4): add("hybrid2_%d" % k, k, ["PART=0", "FULL=1", "TUPLES=" + T(t2[k::4])], weight=6)
    t3 = [(a, b, c) for a in range(9) for b in range(9) for c in range(9)]
    for k in range(9): add("hybrid3_%d" % k, k, ["PART=0", "FULL=0", "TUPLES=" + T(t3[k::9])], weight=3)
    n3 = [(a, b, c) for a in range(3) for b in range(3) for c in range(3)]
    shapes = range(7) if t else (1, 2, 3, 6)
    for k in range(5): add("nested%d" % k, k, ["PART=1", "TUPLES=" + T(n3[k::5]), "SHAPE_LIST=" + " ".join("S_(%d)" % i for i in shapes)], weight=4)
    for w in range(3): add("small_array%d" % w, w, ["PART=2", "WHICH=%d" % w], weight=3)
    for k in range(4): add("self_sort%d" % k, k, ["PART=3", "FROM=%d" % (16 * k), "COUNT=16"], weight=3)
    add("self_sort_lists", 0, ["PART=3", "FROM=64", "COUNT=0"], True, weight=2)
    add("traits", 0, ["PART=4"], True, weight=3)
    k = 0
    for name, b, must in BASES21:
        for o in range(12) if t else (0,):
            for s in (stds if t and o == 0 else [stds[k % 3]]): out.append(Harness("truth_%s_%d_%s" % (name, o, s[3:]), "c21.cpp", ["PART=5", "BASE=" + b, "MUST=%d" % (must if o == 0 else 0), "OUTER=%d" % o], [], std=s, flags=["-O0"], weight=4))
            k += 1
    if not t:
        for k, (o, b) in enumerate(((1, "Fix<false,0>"), (6, "Fix<false,0>"), (7, "Fix<true,0>"), (4, "Fickle<2>"), (2, "Fickle<1>"))):
            out.append(Harness("truth_nested%d" % k, "c21.cpp", ["PART=5", "BASE=" + b, "MUST=0", "OUTER=%d" % o], [], std=stds[k % 3], flags=["-O0"], weight=4))
    return out
register("C21", "exploration",
  "every case is one call of an adapter on one collection (who was called, with what, and what came out), or one trait of one type compared to the documented value",
  c21,
  technique="bounded exhaustive exploration of configurations: every tuple of up to three sorters over the product of iterator categories and accepted calls for hybrid_adapter (nested, rebound, stateful and made stable included), every array size and domain for small_array_adapter, all 64 sets of sort members for self_sort_adapter, every trait of every sorter and adapter, and is_stable against the order that all short inputs with ties come out in",
  note="Complete within the tuples, sizes, sets of members and nestings listed. container_aware_adapter has no iterator_category nor is_always_stable.")
