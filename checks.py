"""What each check builds and runs (scale multiplies the numbers of cases)."""


def std(bin_, quick=1.0, asan=0.0, thorough=1.0, miri=0, miri_thorough=0, **kw):
    """A harness binary in the assertion-checked and release builds, plus ASan and Miri."""
    q = [("checked", quick), ("release", quick)]
    t = [("checked", thorough), ("release", thorough)]
    if asan:
        q.append(("asan", asan))
        t.append(("asan", asan * thorough))
    d = {"bin": bin_, "quick": {"flavors": q, "miri": miri, "miri_s": 60},
         "thorough": {"flavors": t, "miri": miri_thorough, "miri_s": 1800}}
    d.update(kw)
    return d


CHECKS = {
    "C01": std("c01", quick=5, asan=2, miri=16, miri_thorough=600),
    # proofs are judged on the values themselves: only the build users ship
    "C02": {"bin": "c02", "quick": {"flavors": [("release", 16)]}, "thorough": {"flavors": [("release", 4)]}},
    # generated programs, judged by rustc
    "C03": {"programs": True, "bin": "programs", "quick": {"flavors": [("rustc", 1)], "n": 14000},
            "thorough": {"flavors": [("rustc", 1)], "n": 400000}},
    "C04": {"programs": True, "bin": "programs", "quick": {"flavors": [("rustc", 1)], "n": 14000},
            "thorough": {"flavors": [("rustc", 1)], "n": 400000}},
    "C05": std("c05", quick=4),
    "C06": std("c06", quick=5),
    "C07": std("c07", quick=5),
    "C08": std("c08", quick=3),
    "C09": std("c09", quick=5, asan=1),
    "C10": std("c10", quick=3, asan=1, miri=12, miri_thorough=600),
    "C11": std("c11", quick=5, asan=1, miri=16, miri_thorough=800),
    "C12": std("c12", quick=3, asan=1, miri=12, miri_thorough=600),
    "C13": std("c13", quick=3, asan=1, miri=12, miri_thorough=600),
    "C14": std("c14", quick=3, asan=1, miri=8, miri_thorough=400),
    "C15": std("c15", quick=5, asan=1, miri=16, miri_thorough=800),
    "C16": std("c16", quick=5),
    "C17": std("c17", quick=0.7, asan=0.1, miri=8, miri_thorough=300, miri_skip=["deep", "quick"]),
    "C18": std("c18", quick=4, asan=0.5, miri=8, miri_thorough=300),
    "C19": std("c19", quick=4, asan=0.5, miri=8, miri_thorough=300),
    "C20": std("c20", quick=4, asan=0.5, miri=12, miri_thorough=600),
    "C21": std("c21", quick=4, asan=0.5, miri=8, miri_thorough=300),
    "C22": std("c22", quick=4, asan=1, miri=12, miri_thorough=600),
    "C23": std("c23", quick=2, asan=0.5, miri=8, miri_thorough=400),
    "C24": std("c24", quick=3, asan=0.5, miri=12, miri_thorough=600),
}
