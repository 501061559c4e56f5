"""What each check runs: variants of the harness, modules, case counts and the kinds of failure counted."""


def P(variant, feats, quick, thorough_factor=30, thorough=None, corpus=False):
    """quick: list of (module, cases[, kinds])."""
    q = [(m[0], m[1], m[2] if len(m) > 2 else "all") for m in quick]
    t = [(m[0], m[1], m[2] if len(m) > 2 else "all") for m in thorough] if thorough else [(m, n * thorough_factor, k) for m, n, k in q]
    return {"variant": variant, "features": feats, "quick": q, "thorough": t, "corpus": corpus}


K = 1000
TITLES = {}
# C02 counts only failures of the memory checks of every module
MEM = [("value", 150), ("string", 80), ("chunk", 30), ("builder", 120), ("strbuilder", 80), ("queue", 120), ("squeue", 100), ("search", 80), ("cmp", 30), ("consts", 60),
       ("utf8dec", 5), ("ioread", 60), ("iowrite", 60), ("bytesconv", 100), ("buf", 60), ("bufmut", 60), ("http", 40), ("nomparse", 40), ("nomops", 60),
       ("serde", 40), ("serdein", 30), ("intern", 60), ("render", 30), ("fmtwrite", 40), ("iter", 100), ("zerocopy", 80), ("arb", 50), ("panics", 120)]
ASAN = [("value", 40), ("string", 25), ("builder", 40), ("strbuilder", 25), ("queue", 40), ("squeue", 30), ("search", 30), ("cmp", 10), ("consts", 20), ("utf8dec", 3),
        ("ioread", 15), ("iowrite", 15), ("bytesconv", 30), ("buf", 20), ("bufmut", 20), ("nomops", 15), ("intern", 15), ("iter", 30), ("zerocopy", 20), ("arb", 15), ("panics", 40)]
PLAN = {
    "C01": [P("cov", ["m_value", "m_string", "m_huge"], [("value", 400 * K), ("string", 200 * K), ("chunk", 100 * K), ("hugeval", 60 * K)]),
            P("rel", ["m_value", "m_string", "m_huge"], [("value", 150 * K), ("string", 80 * K), ("chunk", 50 * K), ("hugeval", 40 * K)])],
    "C02": [P("cov", ["all"], [(m, n * K, "Memory") for m, n in MEM], corpus=True),
            # (counted steps, how often each edge, longest case)
            P("miri", [], [("corpus", (2200 * K, 1, 40 * K), "Memory")], thorough=[("corpus", (60000 * K, 8, 1500 * K), "Memory")]),
            # (kept out of the corpus: their values view mapped memory)
            P("cov", ["all"], [("hugelimit", 40 * K, "Memory"), ("hugeval", 30 * K, "Memory"), ("hugequeue", 20 * K, "Memory"), ("hugebuf", 20 * K, "Memory")]),
            P("asan", ["all"], [(m, n * K, "Memory") for m, n in ASAN]),
            P("rel", ["m_refs"], [("refs", 8, "Memory")], thorough_factor=4)],
    "C03": [P("miri", [], [("threads", 2000)])],
    "C04": [P("cov", ["m_builder", "m_huge"], [("builder", 300 * K), ("strbuilder", 200 * K), ("hugelimit", 60 * K)]),
            P("rel", ["m_builder", "m_huge"], [("builder", 150 * K), ("strbuilder", 80 * K), ("hugelimit", 60 * K)])],
    "C05": [P("cov", ["m_string", "m_builder", "m_squeue", "m_arb", "m_serde", "m_consts", "m_intern", "m_panics", "m_search", "m_iter", "m_nom", "m_fmt"],
              [("utf8in", 250 * K), ("utf8dec", 10 * K), ("string", 150 * K, "Utf8+Panic"), ("strbuilder", 150 * K, "Utf8+Panic"), ("squeue", 200 * K, "Utf8+Panic"),
               ("search", 50 * K, "Utf8+Panic"), ("iter", 50 * K, "Utf8+Panic"), ("nomops", 50 * K, "Utf8+Panic"), ("arb", 100 * K, "Utf8+Panic"),
               ("serdein", 50 * K, "Utf8+Panic"), ("serdetok", 50 * K, "Utf8+Panic"), ("fmtwrite", 30 * K, "Utf8+Panic"), ("panics", 50 * K, "Utf8+Panic")])],
    "C06": [P("cov", ["m_queue", "m_huge"], [("queue", 400 * K), ("hugequeue", 60 * K)]),
            P("rel", ["m_queue", "m_huge"], [("queue", 200 * K), ("hugequeue", 30 * K)])],
    "C07": [P("cov", ["m_squeue", "m_string", "m_huge"], [("squeue", 400 * K), ("string", 80 * K, "Content+Panic"), ("hugequeue", 40 * K)]),
            P("rel", ["m_squeue"], [("squeue", 200 * K)])],
    "C08": [P("cov", ["m_search"], [("search", 400 * K)]),
            P("rel", ["m_search"], [("search", 150 * K)])],
    "C09": [P("cov", ["m_cmp"], [("cmp", 450 * K)])],
    "C10": [P("cov", ["m_consts"], [("consts", 600 * K), ("utf8dec", 60 * K)])],
    "C11": [P("cov", ["m_io", "m_huge"], [("ioread", 400 * K), ("iowrite", 400 * K), ("hugeio", 120 * K)])],
    "C12": [P("cov", ["m_bytes", "m_huge"], [("bytesconv", 200 * K), ("buf", 200 * K), ("bufmut", 100 * K), ("hugebuf", 60 * K)]),
            P("safe", ["m_bytes"], [("bytesconv", 200 * K)])],
    "C13": [P("cov", ["m_http", "m_huge"], [("http", 450 * K), ("hugebuf", 45 * K, "Content+Panic")])],
    "C14": [P("cov", ["m_nom"], [("nomparse", 300 * K), ("nomops", 300 * K)])],
    "C15": [P("cov", ["m_serde"], [("serde", 225 * K), ("serdetok", 300 * K), ("serdein", 150 * K)])],
    "C16": [P("cov", ["m_intern"], [("intern", 600 * K)]),
            P("miri", [], [("internrace", 320)])],
    "C17": [P("cov", ["m_fmt"], [("render", 300 * K), ("fmtwrite", 300 * K)])],
    "C18": [P("cov", ["m_alias", "m_value", "m_queue", "m_squeue", "m_search", "m_huge"],
              [("zerocopy", 250 * K, "Content+Alias+Panic"), ("value", 150 * K, "Alias"), ("queue", 150 * K, "Alias"), ("squeue", 150 * K, "Alias"), ("search", 100 * K, "Alias"),
               ("hugeval", 60 * K, "Alias"), ("hugelimit", 40 * K, "Alias")])],
    "C19": [P("cov", ["m_iter", "m_huge"], [("iter", 600 * K), ("hugequeue", 80 * K)]),
            P("rel", ["m_iter"], [("iter", 300 * K)])],
    "C20": [P("noalloc", [], [("naqueue", 150 * K), ("navalue", 100 * K), ("chunk", 50 * K), ("iter", 80 * K), ("search", 80 * K), ("nomparse", 50 * K), ("nomops", 50 * K),
                               ("arb", 50 * K), ("naserde", 80 * K), ("buf", 60 * K), ("http", 30 * K)])],
    "C21": [P("cov", ["m_arb"], [("arb", 600 * K)]),
            P("noalloc", [], [("arb", 120 * K)])],
    "C22": [P("cov", ["m_panics"], [("panics", 500 * K)]),
            P("rel", ["m_panics"], [("panics", 300 * K)])],
}
