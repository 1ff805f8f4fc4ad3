"""Which programs decide which property, and how many cases they run on each tier."""
TARGETS = {}
PROPS = {}


def T(name, src, flags=(), san="asan", **kw):
    TARGETS[name] = dict(src=src, flags=list(flags), san=san, **kw)


def P(prop, targets, level="exploration", assumptions=()):
    PROPS[prop] = dict(targets=targets, level=level, assumptions=list(assumptions))


# ---- C01: hash containers vs std ------------------------------------------------------
PORT = ["-DGTL_HAVE_SSE2=0", "-DGTL_HAVE_SSSE3=0"]
for i in range(10):
    T("hash_model_%d" % i, "hash_model.cpp", ["-DCFG=%d" % i])
T("hash_model_0p", "hash_model.cpp", ["-DCFG=0"] + PORT)
T("hash_model_0s", "hash_model.cpp", ["-DCFG=0", "-mssse3"])
T("hash_model_2p", "hash_model.cpp", ["-DCFG=2"] + PORT)
T("hash_model_1n", "hash_model.cpp", ["-DCFG=1", "-DGTL_NON_DETERMINISTIC=1"])
T("hash_model_4d", "hash_model.cpp", ["-DCFG=4", "-DGTL_DISABLE_MIX=1"])
P("C01", [("hash_model_%s" % s, 45000, 1500000) for s in
          ["0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "0p", "0s", "2p"]] + [("hash_model_1n", 15000, 500000), ("hash_model_4d", 15000, 500000)])
# ---- C02 / C03 ------------------------------------------------------------------------
for i in range(8):
    T("hash_stability_%d" % i, "hash_stability.cpp", ["-DCFG=%d" % i])
P("C02", [("hash_stability_%d" % i, 90000, 1500000) for i in range(8)])
for i in [0, 1, 2, 4, 5]:
    T("hash_capacity_%d" % i, "hash_capacity.cpp", ["-DCFG=%d" % i])
T("hash_capacity_3p", "hash_capacity.cpp", ["-DCFG=3"] + PORT)
P("C03", [("hash_capacity_%s" % s, 30000, 1500000) for s in ["0", "1", "2", "3p", "4", "5"]])
# ---- C04 --------------------------------------------------------------------------------
for i in range(20, 27):
    T("par_model_%d" % i, "hash_model.cpp", ["-DCFG=%d" % i])
P("C04", [("par_model_%d" % i, 15000, 800000) for i in range(20, 27)])
# ---- C10 / C11 ---------------------------------------------------------------------------
SLOW = {3, 9, 23, 29}
for i in list(range(10)) + list(range(20, 30)):
    T("btree_model_%d" % i, "btree_model.cpp", ["-DCFG=%d" % i])
P("C10", [("btree_model_%d" % i, 6000 if i in SLOW else 30000, 400000 if i in SLOW else 1500000) for i in range(10)])
P("C11", [("btree_model_%d" % i, 6000 if i in SLOW else 30000, 400000 if i in SLOW else 1500000) for i in range(20, 30)])
# ---- C12 ---------------------------------------------------------------------------------
for i in range(9):
    T("vector_model_%d" % i, "vector_model.cpp", ["-DCFG=%d" % i])
P("C12", [("vector_model_%d" % i, 100000, 5000000) for i in range(9)])
# ---- C13 / C14 -----------------------------------------------------------------------------
T("bitvec_model_0", "bitvec_model.cpp", ["-DCFG=0"])
T("bitvec_model_1", "bitvec_model.cpp", ["-DCFG=1"])
P("C13", [("bitvec_model_0", 200000, 10000000)])
P("C14", [("bitvec_model_1", 200000, 10000000)])
# ---- C08: fault enumeration ------------------------------------------------------------------
for i in range(7):
    T("fault_hash_%d" % i, "fault_hash.cpp", ["-DCFG=%d" % i])
for i in range(3):
    T("fault_vector_%d" % i, "fault_vector.cpp", ["-DCFG=%d" % i])
    T("fault_btree_%d" % i, "fault_btree.cpp", ["-DCFG=%d" % i])
P("C08", [("fault_hash_%d" % i, 10000, 600000) for i in range(7)] + [("fault_vector_%d" % i, 20000, 1500000) for i in range(3)] +
  [("fault_btree_%d" % i, 3000, 200000) for i in range(3)], level="fault_enumeration",
  assumptions=["one fault per operation", "hash/equality faults only where no rehash is involved", "btree elements do not throw (only the comparator does)"])
# ---- C15 / C16: caches, memoizers -----------------------------------------------------------------
for i in list(range(5)) + list(range(10, 18)):
    T("cache_model_%d" % i, "cache_model.cpp", ["-DCFG=%d" % i])
P("C15", [("cache_model_%d" % i, 60000, 3000000) for i in range(5)])
P("C16", [("cache_model_%d" % i, 40000, 2000000) for i in range(10, 18)])
# ---- C18, C19, C22 ---------------------------------------------------------------------------------
for i in range(3):
    T("intrusive_model_%d" % i, "intrusive_model.cpp", ["-DCFG=%d" % i])
    T("soa_model_%d" % i, "soa_model.cpp", ["-DCFG=%d" % i])
T("intrusive_threads", "intrusive_model.cpp", ["-DCFG=10"], san="tsan", repeat=20, workers=3)
P("C18", [("intrusive_model_%d" % i, 1000000, 60000000) for i in range(3)] + [("intrusive_threads", 20000, 1000000)],
  assumptions=["thread-safe policy: real threads under ThreadSanitizer, interleavings are those the machine produces"])
P("C19", [("soa_model_%d" % i, 60000, 3000000) for i in range(3)])
for i in range(5):
    T("utils_model_%d" % i, "utils_model.cpp", ["-DCFG=%d" % i])
P("C22", [("utils_model_0", 300000, 10000000), ("utils_model_1", 300000, 10000000), ("utils_model_2", 1000000, 50000000), ("utils_model_3", 300000, 10000000), ("utils_model_4", 300000, 10000000)])
# ---- C20 ---------------------------------------------------------------------------------------------
for i in list(range(8)) + [20]:
    T("hetero_%d" % i, "hetero.cpp", ["-DCFG=%d" % i])
P("C20", [("hetero_%d" % i, 60000, 4000000) for i in range(8)] + [("hetero_20", 500000, 20000000)])
# ---- C21 ---------------------------------------------------------------------------------------------
for i in range(13):
    T("cost_%d" % i, "cost.cpp", ["-DCFG=%d" % i, "-O2"])
P("C21", [("cost_%d" % i, 30000 if i < 4 else 12000, 1500000 if i < 4 else 600000) for i in range(8)] + [("cost_%d" % i, 8000, 400000) for i in range(8, 13)], assumptions=["cost is counted in key comparisons, groups probed and submap sizes, never in time"])
# ---- C07 ---------------------------------------------------------------------------------------------
for i in range(10):
    T("alloc_model_%d" % i, "alloc_model.cpp", ["-DCFG=%d" % i])
P("C07", [("alloc_model_%d" % i, 60000, 4000000) for i in range(10)], assumptions=["raw pointers as allocator pointers", "containers are merged, and nodes inserted, only between equal allocators; member swap"])
# ---- C23 ---------------------------------------------------------------------------------------------
for i in range(12):
    T("transfer_%d" % i, "transfer.cpp", ["-DCFG=%d" % i])
P("C23", [("transfer_%d" % i, 25000, 1500000) for i in range(12)])
# ---- C09 ---------------------------------------------------------------------------------------------
for i in range(6):
    T("dump_model_%d" % i, "dump_model.cpp", ["-DCFG=%d" % i])
T("dump_model_0p", "dump_model.cpp", ["-DCFG=0"] + PORT)
P("C09", [("dump_model_%s" % s, 40000 if s in "345" else 80000, 2000000) for s in ["0", "1", "2", "3", "4", "5", "0p"]],
  assumptions=["dumps are read back by the same build", "no truncated or corrupted dumps"])
# ---- C06 ---------------------------------------------------------------------------------------------
for i in range(32):
    T("lifetime_%d" % i, "lifetime.cpp", ["-DCFG=%d" % i])
for i in (0, 2, 4, 6):
    for m in (1, 2):
        T("lifetime_%dm%d" % (i, m), "lifetime.cpp", ["-DCFG=%d" % i, "-DMIX=%d" % m])
P("C06", [("lifetime_%d" % i, 28000, 2000000) for i in range(32)] + [("lifetime_%dm%d" % (i, m), 14000, 1000000) for i in (0, 2, 4, 6) for m in (1, 2)],
  assumptions=["map keys and elements of moved parallel sets are not move-only (the library does not support it)"])
# ---- C05 / C17: generated thread programs and schedules ----------------------------------------------
for i in range(6):
    T("concurrent_%d" % i, "concurrent.cpp", ["-DCFG=%d" % i])
    T("concurrent_%dt" % i, "concurrent.cpp", ["-DCFG=%d" % i], san="tsan")
P("C05", [("concurrent_%d" % i, 450000, 40000000) for i in range(6)] + [("concurrent_%dt" % i, 150000, 4000000) for i in range(6)], level="exploration",
  assumptions=["threads are fibres scheduled at lock, hash, comparison, element and callback points; pthread locks are replaced by the scheduler's",
               "swap(a, b) is called in one order only; size(), extract(key), operator[] and iterators are not used concurrently"])
for i in range(9):
    T("concurrent_cache_%d" % i, "concurrent_cache.cpp", ["-DCFG=%d" % i])
    T("concurrent_cache_%dt" % i, "concurrent_cache.cpp", ["-DCFG=%d" % i], san="tsan")
P("C17", [("concurrent_cache_%d" % i, 300000, 25000000) for i in range(9)] + [("concurrent_cache_%dt" % i, 100000, 4000000) for i in range(9)], level="exploration",
  assumptions=["threads are fibres scheduled at lock, hash, comparison, element and callback points; pthread locks are replaced by the scheduler's",
               "cache sizes are not changed concurrently; LRU caches use an exclusive mutex"])
# ---- C24: the standard thread-safety rules, real threads under TSan ------------------------------------
for i in range(13):
    T("thread_rules_%d" % i, "thread_rules.cpp", ["-DCFG=%d" % i], san="tsan", repeat=20, workers=3)
P("C24", [("thread_rules_%d" % i, 5000, 400000) for i in range(13)],
  assumptions=["real threads: the interleavings are those the machine produces; ThreadSanitizer judges unsynchronised accesses independently of timing",
               "containers without internal synchronisation or used through their read-only interface; gtl::timestamp (a global clock) is outside"])
# ---- large sizes: further programs of the properties above -------------------------------------------------
SCALE = {"C01": [("0", 300), ("1", 150), ("2", 300), ("0p", 150)], "C03": [("0l", 300), ("2l", 300)], "C04": [("10", 200), ("11", 100)], "C09": [("50", 250)],
         "C10": [("20", 150), ("21", 80), ("22", 200)], "C11": [("25", 150), ("26", 80)], "C12": [("30", 400), ("31", 250), ("32", 150), ("33", 250)],
         "C13": [("40", 500)], "C14": [("41", 500)], "C15": [("60", 250)], "C16": [("61", 200)], "C19": [("70", 250)]}
for _p, _l in SCALE.items():
    for _s, _n in _l:
        T("scale_" + _s, "scale.cpp", ["-DCFG=" + _s.rstrip("pl"), "-O2"] + (PORT if _s.endswith("p") else []) + (["-DLOAD"] if _s.endswith("l") else []))
        PROPS[_p]["targets"].append(("scale_" + _s, _n, _n * 100))
# ---- requests for more than can be allocated ------------------------------------------------------------------
for _p, _l in {"C03": [0, 1, 2, 3, 4, 5], "C12": [10, 11, 12, 13], "C13": [20]}.items():
    for _i in _l:
        T("huge_%d" % _i, "huge.cpp", ["-DCFG=%d" % _i], san="ubsan")
        PROPS[_p]["targets"].append(("huge_%d" % _i, 20000, 1000000))
for _i in range(2):
    T("fault_soa_%d" % _i, "fault_soa.cpp", ["-DCFG=%d" % _i])
    PROPS["C19"]["targets"].append(("fault_soa_%d" % _i, 8000, 400000))
# ---- with the library's own assertions enabled (as in its test build) ----------------------------------------
ASSERTS = {"C01": [("hash_model", "0", 8000), ("hash_model", "5", 8000)], "C02": [("hash_stability", "1", 15000)], "C03": [("hash_capacity", "0", 8000)], "C04": [("hash_model", "20", 5000)],
           "C06": [("lifetime", "4", 10000)], "C09": [("dump_model", "2", 8000)], "C10": [("btree_model", "0", 8000)], "C11": [("btree_model", "20", 8000)], "C12": [("vector_model", "0", 20000)], "C13": [("bitvec_model", "0", 30000)],
           "C14": [("bitvec_model", "1", 30000)], "C15": [("cache_model", "0", 10000)], "C16": [("cache_model", "13", 10000)], "C18": [("intrusive_model", "0", 100000)], "C19": [("soa_model", "0", 10000)],
           "C23": [("transfer", "0", 6000), ("transfer", "4", 6000), ("transfer", "8", 6000)]}
for _p, _l in ASSERTS.items():
    for _s, _c, _n in _l:
        T("%s_%sa" % (_s, _c), _s + ".cpp", ["-DCFG=" + _c, "-UNDEBUG"])
        PROPS[_p]["targets"].append(("%s_%sa" % (_s, _c), _n, _n * 40))
