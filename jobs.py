"""Which harnesses decide which property, in which configurations and within which bounds."""

BUDGET = {"quick": 780, "thorough": 10800}

ASSUMPTIONS = [
    "x86-64, clang 18 front end at -O0, libstdc++ headers; the C++ standard library code reached by a harness is executed symbolically as well",
    "malloc/new/free, memory intrinsics and the exception ABI are modelled by the executor; memory is a set of separate objects with guard zones",
    "element types, allocators and resources supplied by the harness are instrumented doubles; failures are injected only through them",
    "the executor and Z3 are trusted for the absence of violations; every reported violation is reproduced by a native, sanitizer-instrumented build",
]
EXTRA_ASSUMPTIONS = {}
OUTSIDE = {"*": "sizes, operation counts and element types beyond those listed under bounds"}

S, L, M = 1, 2, 4
BOTH = (True, False)


def J(file, entries, std=14, exc=True, defs=None, bounds="", cost=5, **kw):
    out = []
    for s in (std if isinstance(std, (list, tuple)) else [std]):
        for x in (exc if isinstance(exc, (list, tuple)) else [exc]):
            for e in entries.split():
                j = dict(file=file, entry=e, std=s, exc=x, defs=dict(defs or {}), bounds=bounds, cost=cost)
                j.update(kw)
                out.append(j)
    return out


def seq(entries, n, k, tags=7, cost=5, **kw):
    return J("vla_seq.cpp", entries, defs={"VX_N": n, "VX_K": k}, tags=tags, cost=cost,
             bounds="initial length 0..%d (second array 0..2), every element value, %d arbitrary operation(s) with every argument in 0..%d" % (n, k, n + k), **kw)


def long_seq(entries, tags, cost=25, **kw):
    return J("vla_seq.cpp" if "vla" in entries else "vla_bool.cpp", entries, defs={"VX_SEQ_MAX": 420, "VX_LIFE_MAX": 200}, tags=tags, cost=cost,
             bounds="lengths 65 and 256 (bytes), 31, 129 and 255 (words), 9, 10 and 25 (objects) or 63, 64 and 129 (bits), every value, one operation with counts around the length and 1.5 times it", **kw)


def huge(entries, tags, bits=66001, **kw):
    return J("vla_huge.cpp", entries, defs={"VX_BITS": bits}, tags=tags, csx=["--max-steps", "400000000"],
             bounds="lengths 1030 and 66000 (bytes), 4099 and 33000 (16-bit words) or 1025 and %d (bits) plus or minus 700, every value, one operation; contents judged at some 20 positions" % bits, **kw)


PROP = "vla_u8_prop_move vla_u8_prop_copy vla_elem_prop_move vla_elem_prop_copy"


def fault(entries, n, k=1, budget=1, tags=7, cost=5, lo=0, **kw):
    return J("vla_fault.cpp", entries, defs={"VX_N": n, "VX_K": k, "VX_BUDGET": budget, "VX_LO": lo}, tags=tags, cost=cost, gate=True,
             bounds="initial length %d..%d, every element value, %d operation(s), at most %d injected failure(s) at every possible point" % (lo, n, k, budget), **kw)


def limit(entries, n, k, tags=S, cost=5, lo=0, **kw):
    return J("vla_limit.cpp", entries, defs={"VX_N": n, "VX_K": k, "VX_LO": lo}, tags=tags, cost=cost,
             bounds="configured maximum %d..%d (or unlimited), initial length up to it, %d operation(s), requested counts 0..%d and every count above the maximum up to 2^64-1" % (lo, n, k, n + 3), **kw)


def bools(entries, n, m, k, tags=7, cost=20, **kw):
    return J("vla_bool.cpp", entries, defs={"VX_N": n, "VX_M": m, "VX_K": k}, tags=tags, cost=cost,
             bounds="initial length 0..%d bits, every bit pattern, %d operation(s) with counts 0..%d bits" % (n, k, m), **kw)


def ndebug(jobs):
    """The same with CETL's debug assertions compiled out."""
    out = []
    for j in jobs:
        j = dict(j, defs=dict(j["defs"], NDEBUG=1))
        out.append(j)
    return out


def plan(pid, tier):
    q = tier == "quick"
    f = globals().get("plan_" + pid)
    return f(q) if f else []


def plan_C01(q):
    t = dict(tags=S)
    r = seq("vla_u8 vla_u8_noprop vla_elem vla_u16_pmr_re", 3, 2, shards=2 if q else 4, cost=30, **t)
    r += seq("vla_u32_std vla_moveonly vla_elem_noprop vla_wide vla_elem_copymove vla_u8_pmr vla_elem_pmr vla_moveonly_noprop", 7, 1, **t)
    r += seq("vla_u8 vla_elem_noprop", 6, 1, exc=False, std=20, **t)
    r += seq("vla_u8_noprop", 2, 2, exc=False, cost=20, **t)
    r += seq(PROP, 4, 1, **t)
    r += ndebug(seq("vla_u8_noprop vla_elem", 3, 1, **t))
    r += long_seq("vla_long_u8 vla_long_u32", S)
    r += huge("huge_u8 huge_u16", S, cost=20)
    r += seq("vla_eq_u8 vla_eq_u32 vla_eq_elem vla_range_u8 vla_range_wider vla_range_narrower vla_range_elem", 4, 1, exc=BOTH, std=(14, 20), **t)
    if not q:
        r += seq("vla_u8 vla_elem vla_u8_noprop vla_u16_pmr_re", 2, 3, shards=8, cost=300, **t)
        r += seq("vla_u8 vla_elem_noprop vla_u16_pmr_re vla_u32_std", 18, 1, cost=60, **t)
        r += seq("vla_u8_noprop vla_elem_noprop vla_moveonly", 3, 2, exc=False, shards=2, cost=60, **t)
    return r


def plan_C02(q):
    t = dict(tags=L)
    r = seq("vla_elem vla_elem_noprop vla_wide vla_elem_pmr", 3, 2, shards=2 if q else 4, cost=30, **t)
    r += seq("vla_moveonly vla_moveonly_noprop vla_elem_copymove vla_elem", 7, 1, **t)
    r += seq("vla_elem_noprop vla_moveonly", 5, 1, exc=False, std=17, **t)
    r += seq("vla_elem", 2, 2, exc=False, cost=20, **t)
    r += seq("vla_u8 vla_u16_pmr_re", 7, 1, **t)
    r += seq("vla_range_elem vla_range_u8 vla_eq_elem " + PROP, 4, 1, **t)
    r += long_seq("vla_long_elem vla_long_u32", L)
    if not q:
        r += seq("vla_elem vla_elem_noprop vla_moveonly_noprop vla_elem_copymove", 2, 3, shards=8, cost=300, **t)
        r += seq("vla_elem_noprop vla_wide vla_elem_pmr", 16, 1, cost=60, **t)
    r += J("vla_known.cpp", "vla_realloc_elem vla_emplace_own", tags=L, reach=[], bounds="one growth of an array of up to 3 elements, every value")
    return r


def plan_C03(q):
    t = dict(tags=M)
    r = seq("vla_u8 vla_u8_noprop vla_elem_noprop vla_u16_pmr_re", 3, 2, shards=2 if q else 4, cost=30, **t)
    r += seq("vla_elem vla_u8_pmr vla_elem_pmr vla_moveonly_noprop vla_u32_std", 7, 1, **t)
    r += seq("vla_u8_noprop vla_elem", 5, 1, exc=False, std=20, **t)
    r += seq("vla_u8_noprop", 2, 2, exc=False, cost=20, **t)
    r += seq("vla_range_elem vla_range_u8 " + PROP, 4, 1, **t)
    r += long_seq("vla_long_elem vla_long_u32", M)
    r += huge("huge_u16", M, cost=15)
    if not q:
        r += seq("vla_u8 vla_u8_noprop vla_elem_noprop vla_u16_pmr_re", 2, 3, shards=8, cost=300, **t)
        r += seq("vla_elem_noprop vla_u8 vla_u16_pmr_re vla_u8_pmr", 16, 1, cost=60, **t)
    return r


def plan_C04(q):
    r = fault("oom_u8 oom_elem_noprop oom_u8_pmr_re oom_elem oom_moveonly_noprop oom_u32_pmr oom_u8_noprop", 3, exc=BOTH, reach=["end", "failed"])
    r += fault("oom_u8_noprop", 1, k=2, exc=BOTH, shards=2, cost=30)
    if not q:
        r += fault("oom_u8 oom_elem_noprop oom_u8_pmr_re oom_elem oom_moveonly_noprop oom_u32_pmr", 9, exc=BOTH, budget=2, cost=60)
        r += fault("oom_u8_noprop oom_elem_noprop oom_u8_pmr_re", 2, k=2, exc=BOTH, shards=8, cost=300)
    return r


def plan_C05(q):
    r = fault("throw_all throw_all_noprop throw_copy throw_copy_noprop throw_pmr throw_oom", 3, reach=["end", "failed"])
    r += fault("throw_all throw_copy_noprop", 2, std=20, budget=2)
    if not q:
        r += fault("throw_all throw_all_noprop throw_copy throw_copy_noprop throw_pmr throw_oom", 8, budget=2, cost=60)
        r += fault("throw_all_noprop throw_copy_noprop throw_pmr", 2, k=2, shards=8, cost=300)
    return r


def plan_C06(q):
    r = limit("limit_u8 limit_u8_noprop limit_elem limit_u16_pmr", 2, 2, shards=2, cost=60)
    r += limit("limit_u8", 2, 2, exc=False, shards=2, cost=60)
    r += limit("limit_u8 limit_elem limit_u32_alloc", 4, 1, exc=BOTH, cost=20)
    r += limit("limit_bool", 9, 1, lo=6, exc=BOTH, cost=60)
    if not q:
        r += limit("limit_u8 limit_u8_noprop limit_elem limit_u16_pmr", 4, 2, shards=8, cost=300, exc=BOTH)
    return r


def plan_C07(q):
    r = bools("bool_ops bool_ops_noprop bool_ops_pmr", 10, 17, 1, tags=S, shards=4, cost=60)
    r += bools("bool_eq bool_proxy bool_iter", 10, 17, 1, tags=S)
    r += bools("bool_ops_noprop", 4, 9, 1, tags=S, exc=False)
    r += ndebug(bools("bool_ops_noprop bool_eq bool_proxy", 6, 9, 1, tags=S))
    r += long_seq("bool_long", S, shards=2)
    r += huge("huge_bool", S, shards=4, cost=30)
    if not q:
        r += bools("bool_eq bool_proxy bool_iter", 10, 33, 1, tags=S, std=20, cost=100)
        r += bools("bool_ops bool_ops_noprop", 3, 10, 2, tags=S, shards=8, cost=300)
        r += bools("bool_ops", 24, 33, 1, tags=S, shards=8, cost=300)
    return r


def plan_C08(q):
    r = fault("oom_bool oom_bool_noprop oom_bool_pmr", 9, lo=6, exc=BOTH, cost=25)
    r += fault("oom_bool oom_bool_noprop oom_bool_pmr", 2, exc=BOTH)
    r += limit("limit_bool limit_bool_alloc", 9, 1, lo=6, exc=BOTH, tags=7, shards=2, cost=60)
    r += limit("limit_bool limit_bool_alloc", 2, 2, tags=7, shards=2, cost=60)
    r += bools("bool_ops bool_ops_noprop bool_ops_pmr", 6, 10, 1, shards=2, cost=40)
    if not q:
        r += fault("oom_bool oom_bool_noprop oom_bool_pmr", 17, lo=14, exc=BOTH, cost=60)
        r += limit("limit_bool", 2, 2, exc=False, tags=7, shards=4, cost=200)
        r += fault("oom_bool oom_bool_noprop", 9, k=2, lo=7, exc=BOTH, shards=8, cost=300)
        r += bools("bool_ops bool_ops_noprop bool_ops_pmr", 10, 17, 1, shards=4, cost=60)
    return r


def plan_C09(q):
    t = dict(tags=7)
    b = "buffer of %d bytes, every request size 0..2^64-1 and alignment in the listed set, every refusal pattern of the upstream resource, a symbolic byte of every block as witness, %d operation(s)"
    r = J("mr_buffer.cpp", "buffer_resource array_resource null_upstream delegate_plain", defs={"VX_N": 9, "VX_K": 3, "VX_REALLOC": 0}, bounds=b % (9, 3), shards=2, cost=40, **t)
    r += J("mr_buffer.cpp", "buffer_resource_moved buffer_max_size buffer_adjacent", defs={"VX_N": 9, "VX_K": 3, "VX_REALLOC": 0}, bounds=b % (9, 2), **t)
    r += J("mr_buffer.cpp", "buffer_resource delegate_plain null_upstream", defs={"VX_N": 6, "VX_K": 2, "VX_REALLOC": 0}, exc=False, std=20, bounds=b % (6, 2), **t)
    r += J("mr_buffer.cpp", "buffer_resource array_resource", defs={"VX_N": 4, "VX_K": 2, "VX_REALLOC": 1}, bounds=b % (4, 2), cost=30, **t)
    r += ndebug(J("mr_buffer.cpp", "buffer_resource null_upstream delegate_plain", defs={"VX_N": 6, "VX_K": 2, "VX_REALLOC": 0}, bounds=b % (6, 2), **t))
    if not q:
        r += J("mr_buffer.cpp", "buffer_resource delegate_plain null_upstream", defs={"VX_N": 24, "VX_K": 4, "VX_REALLOC": 0}, bounds=b % (24, 4), shards=8, cost=300, **t)
        r += J("mr_buffer.cpp", "buffer_resource array_resource", defs={"VX_N": 6, "VX_K": 2, "VX_REALLOC": 1}, bounds=b % (6, 2), exc=BOTH, shards=4, cost=200, **t)
    return r


def plan_C10(q):
    t = dict(tags=7)
    b = "%s, every old and new size, alignments in the listed set, every refusal pattern, a symbolic byte as witness for the contents, %d operation(s) of allocate/reallocate/deallocate"
    r = J("mr_buffer.cpp", "buffer_resource delegate_plain null_upstream", defs={"VX_N": 6, "VX_K": 2, "VX_REALLOC": 1}, bounds=b % ("buffer of 6 bytes", 2), shards=4, cost=60, **t)
    r += J("mr_buffer.cpp", "array_resource buffer_resource_moved buffer_adjacent", defs={"VX_N": 4, "VX_K": 2, "VX_REALLOC": 1}, bounds=b % ("buffer of 4 bytes", 2), cost=30, **t)
    r += J("mr_sys.cpp", "sys_max_align sys_new_delete null_resource", defs={"VX_N": 8, "VX_K": 3, "VX_REALLOC": 1}, bounds=b % ("system heap with injected failures", 3), shards=2, cost=40, **t)
    r += J("mr_buffer.cpp", "buffer_resource", defs={"VX_N": 4, "VX_K": 2, "VX_REALLOC": 1}, exc=False, std=17, bounds=b % ("buffer of 4 bytes", 2), cost=30, **t)
    if not q:
        r += J("mr_buffer.cpp", "buffer_resource delegate_plain", defs={"VX_N": 9, "VX_K": 2, "VX_REALLOC": 1}, bounds=b % ("buffer of 9 bytes", 2), exc=BOTH, shards=8, cost=300, **t)
        r += J("mr_sys.cpp", "sys_max_align sys_new_delete", defs={"VX_N": 12, "VX_K": 4, "VX_REALLOC": 1}, bounds=b % ("system heap with injected failures", 4), shards=8, cost=300, **t)
    return r


def plan_C11(q):
    t = dict(tags=7)
    b = "buffer of %d bytes, every request size (sizes from a set of %s where given), %d request(s) with release in between, alignments in the listed set, block capacity caps in the listed set, every refusal pattern of the upstream resource"
    r = J("mr_mono.cpp", "mono_buffer mono_no_buffer mono_default_hint mono_null_upstream mono_overflow", defs={"VX_N": 7, "VX_K": 2}, bounds=b % (7, "all", 2), shards=2, cost=60, **t)
    r += J("mr_mono.cpp", "mono_buffer mono_no_buffer mono_null_upstream", defs={"VX_N": 7, "VX_K": 4, "VX_SIZES": 3, "VX_A": 2}, bounds=b % (7, "3", 4), shards=2, cost=40, **t)
    r += J("mr_mono.cpp", "mono_buffer mono_no_buffer mono_null_upstream", defs={"VX_N": 7, "VX_K": 2, "VX_SIZES": 4}, exc=False, std=20, bounds=b % (7, "4", 2), **t)
    r += J("mr_mono.cpp", "mono_max_size", exc=BOTH, std=(14, 20), bounds="every size of buffer and upstream", **t)
    r += ndebug(J("mr_mono.cpp", "mono_buffer mono_no_buffer", defs={"VX_N": 7, "VX_K": 3, "VX_SIZES": 3, "VX_A": 2}, bounds=b % (7, "3", 3), **t))
    if not q:
        r += J("mr_mono.cpp", "mono_buffer mono_no_buffer mono_default_hint", defs={"VX_N": 9, "VX_K": 3, "VX_A": 3}, bounds=b % (9, "all", 3), shards=8, cost=400, **t)
        r += J("mr_mono.cpp", "mono_buffer mono_no_buffer", defs={"VX_N": 16, "VX_K": 4, "VX_SIZES": 4}, bounds=b % (16, "4", 4), shards=8, cost=300, **t)
    return r


def plan_C12(q):
    t = dict(tags=7)
    b = "every request size 0..2^64-1, alignments in the listed set, every pattern of failures of the C heap, %d operation(s)"
    r = J("mr_sys.cpp", "sys_max_align sys_new_delete null_resource", defs={"VX_N": 8, "VX_K": 3, "VX_REALLOC": 0}, exc=BOTH, bounds=b % 3, shards=2, cost=20, **t)
    r += J("mr_sys.cpp", "sys_max_align sys_new_delete null_resource", defs={"VX_N": 8, "VX_K": 2, "VX_REALLOC": 1}, std=20, bounds=b % 2, **t)
    if not q:
        r += J("mr_sys.cpp", "sys_max_align sys_new_delete", defs={"VX_N": 12, "VX_K": 4, "VX_REALLOC": 0}, exc=BOTH, bounds=b % 4, shards=8, cost=300, **t)
    return r


def plan_C13(q):
    t = dict(tags=7)
    b = "%d threads, %d operation(s) each, every interleaving of shared accesses (sequentially consistent), every choice of operation"
    r = J("mr_mt.cpp", "mt_new_delete mt_default mt_new_delete_first mt_default_first", defs={"VX_THREADS": 2, "VX_OPS": 2}, bounds=b % (2, 2), threads=True, **t)
    r += J("mr_mt.cpp", "mt_new_delete mt_new_delete_first", defs={"VX_THREADS": 3, "VX_OPS": 2}, bounds=b % (3, 2), threads=True, cost=20, **t)
    r += J("mr_sys.cpp", "default_seq", defs={"VX_N": 8, "VX_K": 5}, exc=BOTH, std=(14, 20), bounds="5 operations, every choice of operation and resource", **t)
    if not q:
        r += J("mr_mt.cpp", "mt_default mt_default_first", defs={"VX_THREADS": 3, "VX_OPS": 2}, bounds=b % (3, 2), threads=True, shards=8, cost=400, **t)
        r += J("mr_mt.cpp", "mt_new_delete mt_default", defs={"VX_THREADS": 2, "VX_OPS": 4}, bounds=b % (2, 4), threads=True, cost=100, **t)
    return r


def plan_C14(q):
    t = dict(tags=7)
    e = "poly_u8 poly_u64 poly_three poly_over poly_leading poly_trailing poly_plain poly_equal"
    b = "every element count 0..2^64-1 (requests beyond memory are refused), every argument value, every refusal by the resource; all pair construction forms"
    r = J("mr_poly.cpp", e, exc=BOTH, bounds=b, **t)
    r += J("mr_poly.cpp", e, std=20, bounds=b, **t)
    if not q:
        r += J("mr_poly.cpp", e, std=17, exc=BOTH, bounds=b, **t)
    return r


def plan_C15(q):
    t = dict(tags=7)
    b = "every value, every failure of the allocation or the constructor, %d operation(s) on two deleters/owners"
    k = 3 if q else 5
    r = J("mr_poly.cpp", "factory_plain factory_throw factory_moveonly factory_forward deleter_ops deleter_poly", defs={"VX_K": k}, exc=BOTH, std=(14, 20), bounds=b % k, cost=20 if q else 100, **t)
    r += ndebug(J("mr_poly.cpp", "factory_throw deleter_ops deleter_poly", defs={"VX_K": 2}, bounds=b % 2, **t))
    return r


def plan_C16(q):
    t = dict(tags=7)
    b = "two owners, every value, at most one failed allocation and one throwing constructor at every point, %d operation(s)"
    k = 3 if q else 5
    r = J("iface.cpp", "iface_first iface_second iface_derived", defs={"VX_K": k}, exc=BOTH, bounds=b % k, cost=20 if q else 200, shards=1 if q else 8, **t)
    r += J("iface.cpp", "iface_first iface_second iface_derived", defs={"VX_K": 2}, std=20, bounds=b % 2, **t)
    r += ndebug(J("iface.cpp", "iface_first iface_second", defs={"VX_K": 2}, bounds=b % 2, **t))
    return r


def ubv(entries, k, budget=0, cost=10, **kw):
    return J("ubv.cpp", entries, defs={"VX_K": k, "VX_BUDGET": budget}, cost=cost,
             bounds="two variants, three value types, every value, %d operation(s)%s" % (k, ", at most %d failed allocation(s) and %d throwing copies or constructors at every point" % (budget, budget) if budget else ""), **kw)


UBV = "ubv_inline ubv_mixed ubv_pmr ubv_copy_only_inline ubv_copy_only_mixed ubv_copy_only_pmr ubv_move_only_inline ubv_move_only_mixed ubv_move_only_pmr ubv_fixed_mixed ubv_exact"


def plan_C17(q):
    r = ubv(UBV, 2, tags=S) + ubv("ubv_construct", 1, tags=S) + ubv("ubv_sizes ubv_access ubv_aligned", 1, tags=S, exc=BOTH, std=(14, 20))
    r += ubv("ubv_mixed ubv_pmr ubv_copy_only_mixed ubv_move_only_inline", 2, tags=S, exc=False, std=20)
    r += ubv("ubv_inline ubv_mixed ubv_pmr", 1, budget=1, tags=S, exc=BOTH)
    if not q:
        r += ubv(UBV, 3, tags=S, shards=4, cost=200)
    else:
        r += ubv("ubv_mixed ubv_pmr", 3, tags=S, shards=4, cost=100)
    return r


def plan_C18(q):
    r = ubv(UBV, 2, tags=L | M)
    r += ubv(UBV, 2, budget=1, tags=7, gate=True, exc=BOTH, shards=2, cost=30)
    r += ubv("ubv_construct ubv_sizes", 1, budget=1, tags=7, gate=True, exc=BOTH, std=(14, 20))
    r += ubv("ubv_sizes ubv_access ubv_aligned", 1, tags=L | M)
    r += ndebug(ubv("ubv_mixed ubv_pmr", 1, budget=1, tags=7))
    r += J("ubv.cpp", "ubv_self_alias", tags=L | M, reach=[], bounds="every value, stored inline and out of line")
    if not q:
        r += ubv(UBV, 3, budget=1, tags=7, gate=True, exc=BOTH, shards=8, cost=400)
        r += ubv(UBV, 2, budget=2, tags=7, gate=True, std=17, shards=8, cost=200)
    return r


def fun(entries, k, budget=0, cost=10, **kw):
    return J("fun.cpp", entries, defs={"VX_K": k, "VX_BUDGET": budget}, cost=cost, tags=7,
             bounds="two functions, three kinds of target, every argument and captured value, %d operation(s) and two calls%s" % (k, ", at most %d failed allocation(s) and %d throwing copies, constructors or calls at every point" % (budget, budget) if budget else ""), **kw)


def plan_C19(q):
    r = fun("fun_inline fun_mixed fun_pmr", 2, budget=1, exc=BOTH)
    r += fun("fun_construct", 1, budget=2, exc=BOTH, std=(14, 20))
    r += fun("fun_inline fun_mixed fun_pmr", 2, budget=0, std=20)
    r += ndebug(fun("fun_inline fun_mixed fun_pmr", 1, budget=1))
    r += fun("fun_inline fun_mixed fun_pmr", 3, budget=0, shards=4, cost=60)
    if not q:
        r += fun("fun_inline fun_mixed fun_pmr", 3, budget=1, exc=BOTH, shards=8, cost=400)
        r += fun("fun_mixed fun_pmr", 2, budget=3, shards=4, cost=100)
    return r


def plan_C20(q):
    b = "every 16-byte identity, every pair of identities, ten object types in single, multiple and multi-level hierarchies through 14 static types"
    return J("rtti.cpp", "rtti_cast rtti_ids", std=(14, 17, 20), exc=BOTH, bounds=b, tags=7)


OPT = "opt_u8 opt_pair opt_assigns opt_elem opt_throw_all opt_throw_copy opt_move_only opt_copy_only"
OPT_THROW = "opt_throw_all opt_throw_copy opt_move_only opt_copy_only"


def opt(entries, k, budget=0, cost=5, **kw):
    return J("opt.cpp", entries, defs={"VX_K": k, "VX_BUDGET": budget}, cost=cost,
             bounds="two optionals in every state, every value, %d operation(s)%s" % (k, ", at most %d throwing operation(s) of the value type at every point" % budget if budget else ""), **kw)


def plan_C21(q):
    r = opt(OPT, 2, tags=S, std=(14, 20))
    r += opt(OPT, 2, tags=S, exc=False, std=17)
    r += opt("opt_sources opt_lists", 1, tags=S, exc=BOTH, std=(14, 20))
    r += opt("opt_u8 opt_elem opt_assigns", 3, tags=S, shards=4, cost=40)
    if not q:
        r += opt(OPT, 3, tags=S, exc=BOTH, shards=4, cost=60)
        r += opt("opt_u8 opt_elem", 4, tags=S, shards=8, cost=400)
    return r


VAR = "var_trivial var_mixed var_throw_all var_throw_copy var_move_only var_copy_only var_dup var_single var_single_bomb var_assigns var_copies var_convert var_convert_copy var_convert_all"
VAR_SMALL = "var_convert var_convert_copy var_convert_all var_copy_only var_dup var_single var_single_bomb"
VAR_THROW = "var_throw_all var_throw_copy var_copy_only var_single"


def var(entries, k, budget=0, cost=10, **kw):
    return J("var.cpp", entries, defs={"VX_K": k, "VX_BUDGET": budget}, cost=cost,
             bounds="two variants of 1..4 (var_many: 10) alternatives in every state (none included), every value, %d operation(s)%s" % (k, ", at most %d throwing operation(s) of the alternatives at every point" % budget if budget else ""), **kw)


def plan_C22(q):
    r = opt(OPT, 2, tags=L | M)
    r += opt(OPT_THROW, 2, budget=1, tags=7, gate=True, std=(14, 20))
    r += opt(OPT_THROW, 2, budget=2, tags=7, gate=True, std=17, cost=15)
    r += var("var_mixed var_throw_copy", 2, tags=L | M, shards=2, cost=20)
    r += var("var_throw_all var_move_only var_copy_only", 2, tags=L | M)
    r += var("var_throw_all var_throw_copy", 2, budget=1, tags=7, gate=True, shards=3, cost=30)
    r += var("var_copy_only var_single var_convert_copy var_convert_all", 2, budget=2, tags=7, gate=True, std=(14, 20))
    if not q:
        r += opt(OPT_THROW, 3, budget=1, tags=7, gate=True, shards=8, cost=100)
        r += opt(OPT_THROW, 3, budget=2, tags=7, gate=True, shards=8, cost=200)
        r += var(VAR_THROW, 2, budget=2, tags=7, gate=True, std=(17, 20), shards=8, cost=100)
        r += var("var_copy_only var_single", 3, budget=2, tags=7, gate=True, shards=8, cost=200)
        r += var("var_throw_all", 3, budget=1, tags=7, gate=True, shards=16, cost=600)
    return r


def plan_C23(q):
    r = var("var_trivial var_throw_all var_move_only var_assigns var_copies " + VAR_SMALL, 2, tags=S)
    r += var("var_mixed var_throw_copy", 2, tags=S, shards=2, cost=20)
    r += var("var_trivial var_move_only var_copy_only var_dup", 2, tags=S, exc=False, std=17)
    r += var(VAR, 1, tags=S, exc=BOTH, std=20)
    r += ndebug(var("var_trivial var_mixed var_throw_copy", 1, tags=S))
    r += var("var_single var_single_bomb", 3, tags=S)
    r += var("var_many", 1, tags=S, cost=30) + var("var_lists", 1, tags=S, exc=BOTH, std=(14, 20))
    r += var("var_convert var_convert_copy", 1, tags=S, std=17)
    if not q:
        r += var(VAR, 2, tags=S, exc=BOTH, std=20, shards=2, cost=40)
        r += var("var_trivial var_move_only var_assigns var_copies var_copy_only var_dup", 3, tags=S, shards=16, cost=600)
    return r


def plan_C24(q):
    b = "every combination of active alternatives (none included) of 1, 2 or 3 variants with 4, 3 and 2 alternatives, every value and result"
    r = J("visit.cpp", "visit_one visit_two visit_same visit_three visit_effects visit_overloaded", std=(14, 17, 20), exc=BOTH, bounds=b, tags=7)
    return r + ndebug(J("visit.cpp", "visit_one visit_two visit_three", bounds=b, tags=7))


def plan_C25(q):
    b = "every pair of states (none included) and every pair of values (of partially ordered types for optionals), all six operators in both argument orders"
    r = J("cmp.cpp", "cmp_opt_u8 cmp_opt_i16 cmp_opt_type cmp_opt_cross cmp_unordered cmp_var", std=(14, 17, 20), exc=BOTH, bounds=b, tags=7)
    r += J("cmp.cpp", "cmp_var_unordered", bounds="every pair of contents of which at least one is unordered", tags=S, reach=[])
    return r


SV = "sv_elements sv_slices sv_find_char sv_compare sv_overlap"
SV16 = "sv_elements_16 sv_slices_16 sv_find_char_16 sv_compare_16"


def sv(entries, n, m, cost=10, **kw):
    return J("sv.cpp", entries, defs={"VX_N": n, "VX_M": m}, cost=cost, tags=7,
             bounds="every text of up to %d characters (sv_any_length: views of up to 2^60) and needle of up to %d, every position, index and count in 0..2^64-1" % (n, m), **kw)


def plan_C26(q):
    r = sv(SV, 6, 3, cost=15)
    r += sv(SV16, 4, 2)
    r += sv("sv_any_length sv_any_length_16", 4, 3, exc=BOTH)
    r += J("sv.cpp", "sv_long_text", defs={"VX_N": 4, "VX_M": 3}, tags=7, csx=["--max-steps", "400000000"], shards=2, cost=30,
           bounds="texts of 257, 1030 and 66000 characters, all the same but for two arbitrary ones")
    r += sv("sv_find_text", 5, 3, shards=4, cost=40)
    r += sv("sv_find_text", 4, 4)
    r += sv("sv_find_text_16", 4, 2)
    r += sv(SV, 3, 2, std=20, exc=BOTH)
    r += sv("sv_find_text", 3, 2, std=(17, 20), exc=False)
    if not q:
        r += sv(SV, 9, 3, cost=100)
        r += sv("sv_find_text", 7, 3, shards=16, cost=600)
        r += sv("sv_find_text", 6, 4, shards=8, cost=300)
        r += sv("sv_find_text_16", 5, 3, shards=8, cost=300)
        r += sv(SV16, 6, 3, cost=60)
    return r


def plan_C27(q):
    b = "every length 0..4 (static and dynamic extents; 1..2^58 where no element is accessed), every element value, every index, offset and count in 0..2^64-1; every compile-time slice of static spans"
    r = J("span.cpp", "span_dynamic span_static span_static_slices span_arrays span_any_length", std=(14, 17, 20), exc=BOTH, bounds=b, tags=7, reach=["end"])
    r += ndebug(J("span.cpp", "span_dynamic span_static span_static_slices span_arrays span_any_length", bounds=b, tags=7, reach=["end"]))
    if not q:
        r += J("span.cpp", "span_dynamic", defs={"VX_N": 12}, bounds=b.replace("0..4", "0..12"), tags=7, cost=30)
    return r


def plan_C28(q):
    b = "every value of 8 to 12 source types, as temporary, named object and constant, constructing and assigning to every active alternative, for 15 to 28 lists of alternatives per group"
    e = "pick_numbers pick_others pick_objects"
    return J("var_pick.cpp", e, std=(14, 17, 20), tags=7, bounds=b) + J("var_pick.cpp", e, exc=False, tags=7, bounds=b)


def plan_C29(q):
    def out(n, **kw):
        return J("svout.cpp", "sv_output", defs={"VX_N": n}, tags=7, bounds="every text of up to %d characters, field widths -1..%d, every fill character and adjustment, streams that fail after any number of characters" % (n, n + 4), **kw)
    r = out(4, std=(14, 17, 20), exc=BOTH, cost=10)
    if not q:
        r += out(9, cost=60)
    return r


def plan_C30(q):
    def o1(k, **kw):
        return J("mr_o1heap.cpp", "o1heap_buffer o1heap_storage", defs={"VX_K": k}, tags=7, bounds="two resources over buffers of any size, %d operations, requests of any size, alignments up to the heap's own, any pattern of heap failures" % k, **kw)
    r = o1(2, std=(14, 17, 20), exc=BOTH) + o1(3, exc=BOTH, cost=10) + ndebug(o1(2))
    if not q:
        r += o1(4, exc=BOTH, shards=4, cost=200)
    return r


def plan_C31(q):
    def al(k, n, **kw):
        return J("alias.cpp", "alias_resources alias_users alias_optional alias_variant alias_views", defs={"VX_K": k, "VX_N": n}, tags=7, exc=BOTH,
                 bounds="%d operations on resources, optionals and variants (any value, any failing allocation or copy), views of up to %d elements with any contents" % (k, n), **kw)
    r = al(2, 3, std=(14, 17, 20)) + al(3, 4, std=(14, 17), cost=10)
    if not q:
        r += al(4, 6, std=(14, 17), cost=200)
    return r


NOTES = {
    "*": "Holds for every value of the symbolic inputs within the bounds listed in the evidence file (sizes, operations, failure points); nothing is claimed beyond them. "
         "Trusts the executor's model of LLVM IR, memory and exceptions (cross-checked by replaying sampled paths natively), clang's lowering at -O0 and Z3.",
}
