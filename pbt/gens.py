"""Generators of JSON case data shared by the checks."""
import random
from datetime import date, datetime, timedelta

from hypothesis import strategies as st

LO, HI = date(1975, 1, 1), date(2095, 12, 31)
CORNERS = ['2024-02-29', '2024-02-28', '2023-02-28', '2024-03-01', '2023-12-31', '2024-01-01', '2021-12-31',
           '2022-01-01', '2022-12-30', '2020-02-29', '2100-02-28', '2000-02-29', '2023-01-31', '2024-08-31',
           '2023-03-31', '2023-06-30', '2024-12-31', '2023-10-30', '2022-12-31', '2010-12-31', '2011-01-01']


def ord_to_iso(n: int) -> str:
    return date.fromordinal(n).isoformat()


def dates(lo: date = LO, hi: date = HI, corners: bool = True):
    plain = st.integers(lo.toordinal(), hi.toordinal()).map(ord_to_iso)
    if not corners:
        return plain
    special = [c for c in CORNERS if lo <= date.fromisoformat(c) <= hi]
    month_ends = st.tuples(st.integers(lo.year, hi.year), st.integers(1, 12), st.integers(-3, 3)).map(
        lambda t: (date(t[0] + t[1] // 12, t[1] % 12 + 1, 1) - timedelta(days=1) + timedelta(days=t[2]))).filter(
        lambda d: lo <= d <= hi).map(lambda d: d.isoformat())
    options = [plain, plain, month_ends]
    if special:
        options.append(st.sampled_from(special))
    return st.one_of(*options)


def datetimes(lo: date = LO, hi: date = HI):
    seconds = st.one_of(st.just(0), st.sampled_from([1, 43200, 86399, 3600, 59]), st.integers(0, 86399))
    return st.tuples(dates(lo, hi), seconds).map(
        lambda t: (datetime.fromisoformat(t[0]) + timedelta(seconds=t[1])).isoformat())


def floats(lo, hi, digits=6):
    """Finite floats on a decimal grid (short in replay files, no denormals)."""
    scale = 10 ** digits
    return st.integers(round(lo * scale), round(hi * scale)).map(lambda n: n / scale)


def offset(base: str, days: int) -> str:
    return (date.fromisoformat(base) + timedelta(days=days)).isoformat()


def table(rows: int, columns: int, lo=-1.0, hi=1.0, digits=2):
    """A table of numbers too big to be drawn one by one; its seed is drawn."""
    def fill(seed):
        rng = random.Random(seed)
        return [[round(rng.uniform(lo, hi), digits) for _ in range(columns)] for _ in range(rows)]
    return st.integers(0, 10 ** 6).map(fill)


def many(smallest: int, largest: int, make):
    """A long list: make(rng, i) for its elements."""
    def fill(drawn):
        rng = random.Random(drawn[1])
        return [make(rng, i) for i in range(drawn[0])]
    return st.tuples(st.integers(smallest, largest), st.integers(0, 10 ** 6)).map(fill)
