"""Reference components follow their definitions."""

from hypothesis import strategies as st

from lib.common import check, quiet, same
from lib.runner import Part

ID = "U01"
RULE = (
    "A case is a number of ways (a power of two) with a history of uses, evictions and evict-and-use "
    "rounds on two PLRUs, compared with a recursive tree model; or seeds and step counts of LFSRs, "
    "compared with the bit recurrence and its linearity; or histories of counters. Non-trivial: at "
    "least four ways and ways evictions, more than 64 steps from a nonzero seed, a counter that "
    "reached both ends."
)
ASSUMPTIONS = ["Ways are a power of two, counters start within 0..3."]


# ---------------------------------------------------------------- PLRU


@st.composite
def plru_plan(draw):
    ways = 2 ** draw(st.sampled_from([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 10]))
    ops = []
    for _ in range(draw(st.integers(1, 40))):
        k = draw(st.sampled_from(["use", "use", "use", "get", "evict", "evict", "round"]))
        ops.append([k, draw(st.integers(0, 3)) == 0, draw(st.integers(0, ways - 1))])
    return {"ways": ways, "ops": ops}


class Tree:
    """Every inner node points to the half that was used less recently."""

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi
        self.right = False
        self.kids = None
        if hi - lo > 1:
            mid = (lo + hi) // 2
            self.kids = Tree(lo, mid), Tree(mid, hi)

    def use(self, way):
        if self.kids:
            in_right = way >= self.kids[1].lo
            self.right = not in_right
            self.kids[in_right].use(way)

    def victim(self):
        return self.kids[self.right].victim() if self.kids else self.lo


def plru(p):
    from toffee.utils import PLRU

    quiet()
    ways = p["ways"]
    pair = [(PLRU(ways), Tree(0, ways)) for _ in range(2)]
    last = [None, None]
    evictions = 0
    for i, (k, which, way) in enumerate(p["ops"]):
        q, ref = pair[which]
        if k == "round":
            seen = []
            for _ in range(ways):
                seen.append(q.get())
                q.update(seen[-1])
                ref.use(ref.victim())
                last[which] = seen[-1]
            same(sorted(seen), list(range(ways)), f"step {i}: ways evicted in one round")
            evictions += ways
        elif k == "evict":
            v = q.get()
            same(v, ref.victim(), f"step {i}: evicted way")
            q.update(v)
            ref.use(v)
            last[which] = v
            evictions += 1
        elif k == "use":
            q.update(way)
            ref.use(way)
            last[which] = way
        for j, (x, r) in enumerate(pair):
            v = x.get()
            same(v, r.victim(), f"step {i}: victim of PLRU {j} of {ways} ways")
            if ways > 1 and last[j] is not None:
                check(v != last[j], "step %d: the most recently used way %d is evicted", i, v)
    return ways >= 4 and evictions >= ways, [f"{ways} ways"]


# ---------------------------------------------------------------- LFSR


@st.composite
def lfsr_plan(draw):
    seed = st.one_of(
        st.integers(0, 2**64 - 1),
        st.integers(0, 63).map(lambda i: 1 << i),
        st.integers(0, 5),
        st.integers(-5, -1),
        st.integers(2**64 - 3, 2**66),
        st.just(None),
    )
    return {
        "seeds": [draw(seed), draw(seed)],
        "steps": draw(st.lists(st.integers(1, 90), min_size=1, max_size=4)),
    }


def lfsr(p):
    from toffee.utils import LFSR_64

    quiet()
    seeds = [(1 if s is None else s) % 2**64 for s in p["seeds"]]
    gens = [LFSR_64() if s is None else LFSR_64(s) for s in p["seeds"]]
    both = LFSR_64(seeds[0] ^ seeds[1])
    # the register holds 64 successive bits of the sequence
    bits = [[(s >> i) & 1 for i in range(64)] for s in seeds]
    total = 0
    for n in p["steps"]:
        for which in (0, 1):
            for _ in range(n):
                gens[which].step()
                b = bits[which]
                k = len(b) - 64
                b.append((b[k] + b[k + 1] + b[k + 3] + b[k + 4]) % 2)
            b = bits[which][-64:]
            want = sum(x << i for i, x in enumerate(b))
            got = gens[which].rand
            same(got, want, f"register after {total + n} steps from {seeds[which]}")
            same(gens[which].rand, got, "register read twice")
            check((got == 0) == (seeds[which] == 0), "register %d from seed %d", got, seeds[which])
            check(0 <= got < 2**64, "register leaves 64 bits: %d", got)
        for _ in range(n):
            both.step()
        same(both.rand, gens[0].rand ^ gens[1].rand, f"sum of two sequences after {total + n}")
        total += n
    return total > 64 and any(seeds), ["long" if total > 64 else "short"]


# ------------------------------------------------------------- counters


@st.composite
def counter_plan(draw):
    return {
        "init": [draw(st.sampled_from([None, 0, 1, 2, 3])) for _ in range(2)],
        "ops": draw(
            st.lists(
                st.tuples(st.integers(0, 1), st.sampled_from([0, 1, True, False, 0, 1])).map(list),
                max_size=40,
            )
        ),
    }


def counter(p):
    from toffee.utils import TwoBitsCounter

    quiet()
    cs = [TwoBitsCounter() if i is None else TwoBitsCounter(i) for i in p["init"]]
    ref = [2 if i is None else i for i in p["init"]]
    seen = set(ref)
    for n, (w, taken) in enumerate(p["ops"]):
        cs[w].update(taken)
        up = ref[w] + (1 if taken else -1)
        ref[w] = 0 if up < 0 else 3 if up > 3 else up
        seen.add((ref[w], up))
        for c, r in zip(cs, ref):
            same(c.counter, r, f"counter after step {n}")
            same(c.get_prediction(), int(r >= 2), f"prediction after step {n}")
    return (0, -1) in seen and (3, 4) in seen, []


PARTS = [
    Part("plru", plru_plan, plru, 1500),
    Part("lfsr", lfsr_plan, lfsr, 1000),
    Part("counter", counter_plan, counter, 1500),
]
