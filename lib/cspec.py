"""Generated histories of a coverage group and the reference they are compared with."""

import sys

from hypothesis import strategies as st

from .common import check, same

CONDS = ["Eq", "Gt", "Lt", "Ge", "Le", "Ne", "In", "NotIn", "IsInRange"]
BINS = ["b0", "b1", "b2", "low", "high", "B0", "b 4", "b[5]", "b.6", "*"]
ODD = [None, None, "", "s", -3, 10**30, 0, 1]  # values that have no order
NAMES = ["p0", "p1", "p2", "p3"]
N_TARGETS = 4  # object with .value, pin, plain value, list without .value


@st.composite
def cond(draw, odd=False):
    if odd:
        kind = draw(st.sampled_from(["Eq", "Ne", "In", "NotIn"]))
        if kind in ("Eq", "Ne"):
            return [kind, draw(st.sampled_from(ODD)), draw(st.booleans())]
        return [kind, draw(st.lists(st.sampled_from(ODD), max_size=4)), draw(st.booleans())]
    kind = draw(st.sampled_from(CONDS + ["IsInRange"] * 2 + ["fn"] * 4))
    if kind in ("In", "NotIn"):
        members = draw(st.lists(st.integers(0, 5), max_size=4))
        if draw(st.integers(0, 3)) == 0:
            members = list(range(20, 20 + draw(st.integers(5, 40)))) + members
        return [kind, members, draw(st.booleans())]
    if kind == "IsInRange":
        bound = st.integers(0, 5) | st.integers(0, 5) | st.sampled_from([0.5, 1.5, 2.5, 4.0])
        return [kind, draw(bound), draw(bound), draw(st.booleans())]
    if kind == "fn":
        return [
            kind,
            draw(st.sampled_from(["even", "eq", "true", "false", "int", "two", "text", "object", "none"])),
            draw(st.integers(0, 4)),
        ]
    return [kind, draw(st.integers(0, 5)), draw(st.booleans())]


@st.composite
def bins(draw, odd=False):
    if draw(st.integers(0, 5)) == 0:
        return {"anonymous": draw(cond(odd))}
    out = {}
    size = draw(st.sampled_from([3, 3, 3, len(BINS)]))
    for name in draw(st.lists(st.sampled_from(BINS), min_size=1, max_size=size, unique=True)):
        if draw(st.integers(0, 3)) == 0:
            kind = draw(st.sampled_from(["list", "tuple"]))
            out[name] = [kind, draw(st.lists(cond(odd), min_size=0, max_size=3))]
        else:
            out[name] = draw(cond(odd))
    return out


@st.composite
def plan(draw):
    n_groups = draw(st.integers(1, 2))
    groups = [
        {"name": draw(st.sampled_from(["", "g"])), "dis": draw(st.sampled_from([None, True, False]))}
        for _ in range(n_groups)
    ]
    ops = []
    odd = draw(st.integers(0, 4)) == 0
    for g in range(n_groups):
        for n in NAMES[: draw(st.integers(1, 3))]:
            ops.append(
                [
                    "add",
                    g,
                    n,
                    draw(st.integers(0, N_TARGETS - 1)),
                    draw(bins(odd)),
                    draw(st.sampled_from([None, True, True, False])),
                    draw(st.booleans()),
                ]
            )
    for _ in range(draw(st.integers(4, 30))):
        k = draw(
            st.sampled_from(
                ["sample"] * 8
                + ["set"] * 8
                + ["reset", "reset", "del", "add", "add", "stop", "resume", "resume"]
                + ["clear", "bad", "unnamed"]
            )
        )
        g = draw(st.integers(0, n_groups - 1))
        if k == "set":
            target = draw(st.integers(0, N_TARGETS - 1))
            value = st.integers(0, 5)
            if target != 1:
                value = st.sampled_from(ODD) if odd else value | st.sampled_from([0.5, 1.5, 2.5, 4.75])
            ops.append([k, target, draw(value)])
        elif k in ("add", "unnamed"):
            ops.append(
                [
                    "add",
                    g,
                    draw(st.sampled_from(NAMES)) if k == "add" else "",
                    draw(st.integers(0, N_TARGETS - 1)),
                    draw(bins(odd)),
                    draw(st.sampled_from([None, True, False])),
                    draw(st.booleans()),
                ]
            )
        elif k in ("reset", "del"):
            ops.append([k, g, draw(st.sampled_from(NAMES))])
        elif k == "bad":
            ops.append([k, g, draw(st.sampled_from(["bins", "bin", "list", "dup", "none"]))])
        elif k == "sample":
            ops.append([k, g, draw(st.sampled_from([1] * 12 + [2] * 3 + [4] * 3 + [80]))])
        else:
            ops.append([k, g])
    return {"groups": groups, "ops": ops}


class Obj:
    def __init__(self, value):
        self.value = value

    def __str__(self):
        return "<obj>"


def holds(c, v):
    """The condition as documented, on the value v."""
    kind = c[0]
    if kind == "Eq":
        return v == c[1]
    if kind == "Ne":
        return v != c[1]
    if kind == "Gt":
        return v > c[1]
    if kind == "Lt":
        return v < c[1]
    if kind == "Ge":
        return v >= c[1]
    if kind == "Le":
        return v <= c[1]
    if kind == "In":
        return v in c[1]
    if kind == "NotIn":
        return v not in c[1]
    if kind == "IsInRange":
        return v >= c[1] and v <= c[2]
    return bool(fn_result(c, v))


def fn_result(c, v):
    """What a callable of a bin returns: any value with a truth of its own."""
    return {
        "even": v % 2 == 0,
        "eq": v == c[2],
        "true": True,
        "false": False,
        "int": int(v) & 1,
        "two": 2 if v >= c[2] else 0,
        "text": "x" * int(v >= c[2]),
        "object": Truth(v == c[2]),
        "none": None if v >= c[2] else [v],
    }[c[1]]


class Truth:
    def __init__(self, value):
        self.value = value

    def __bool__(self):
        return bool(self.value)


def bin_holds(b, v):
    if b[0] in ("list", "tuple"):
        return all(holds(c, v) for c in b[1])
    return holds(b, v)


class Ref:
    """Reference of one group."""

    def __init__(self, dis):
        self.dis = dis
        self.clear()

    def clear(self):
        self.points = {}
        self.stop = False
        self.calls = 0
        self.done = False  # stopped by itself
        self.count = [0, 0]  # bounds of the counted samples

    def covered(self, p):
        return all(n > 0 for n in p["hits"].values())


class Run:
    def __init__(self, p):
        import toffee.funcov as fc

        from . import bspec

        self.fc = fc
        self.dut = bspec.make_dut(["a"])
        self.obj = Obj(0)
        self.lst = [0]
        self.targets = [self.obj, self.dut.a, 3, self.lst]
        self.values = [0, 0, 3, 0]
        self.refs, self.groups = [], []
        self.evals = {}  # (group, point) -> evaluations of its counting bins
        self.want_evals = {}
        self.tags = set()
        self.unique = 0
        for g in p["groups"]:
            kw = {}
            if g["name"]:
                kw["name"] = g["name"]
            if g["dis"] is not None:
                kw["disable_sample_when_point_hinted"] = g["dis"]
            self.groups.append(fc.CovGroup(**kw))
            self.refs.append(Ref(True if g["dis"] is None else g["dis"]))
            # an unnamed group is called after the place that made it
            made = g["name"] or "%s:%d" % (__file__, sys._getframe().f_lineno - 3)
            same(self.groups[-1].name, made, "name of the group")
            same(self.groups[-1].as_dict()["__sample_count__"], 0, "samples of a new group")

    # ------------------------------------------------------------ building

    def make_cond(self, c, target, key):
        fc = self.fc
        kind = c[0]
        if kind == "fn":
            # a counting callable gets the target itself
            counter = self.evals

            def fn(x, _c=c):
                counter[key] = counter.get(key, 0) + 1
                check(x is self.targets[target], "a bin was called with %r", x)
                return fn_result(_c, self.values[target])

            return fn
        if target == 3:  # a list: conditions compare the list itself, use a callable
            return lambda x, _c=c: fn_result(_c, x[0]) if _c[0] == "fn" else holds(_c, x[0])
        if kind == "IsInRange":
            return [fc.CovIsInRange, fc.IsInRange][c[3]](c[1], c[2])
        cls = getattr(fc, kind if c[2] else "Cov" + kind)
        return cls(list(c[1]) if isinstance(c[1], list) else c[1])

    def make_bins(self, spec, target, g, name):
        out = {}
        for b, c in spec.items():
            key = (g, name, b)
            if c[0] in ("list", "tuple"):
                items = [self.make_cond(x, target, None) for x in c[1]]
                out[b] = items if c[0] == "list" else tuple(items)
            else:
                out[b] = self.make_cond(c, target, key)
        if list(spec) == ["anonymous"]:
            return out["anonymous"]
        return out

    # ---------------------------------------------------------- operations

    def set(self, t, v):
        if t == 2:  # a plain value is fixed
            return
        self.values[t] = v
        if t == 0:
            self.obj.value = v
        elif t == 1:
            self.dut.a.value = v
        else:
            self.lst[0] = v

    def add(self, g, name, target, spec, once, dynamic):
        group, ref = self.groups[g], self.refs[g]
        made = self.make_bins(spec, target, g, name or f"u{self.unique}")
        kw = {"name": name} if name else {}
        if once is not None:
            kw["once"] = once
        if dynamic:
            kw["dynamic_bin"] = True
        before = list(group.cover_points())
        if name and name in ref.points:
            try:
                group.add_watch_point(self.targets[target], made, **kw)
            except ValueError:
                return
            check(False, "a second point %r was accepted", name)
        if not name:
            try:
                ret = group.add_cover_point(self.targets[target], made, **kw)
            except ValueError:
                # same target and same bins: same automatic name
                check(
                    any(pt["auto"] == (target, list(spec)) for pt in ref.points.values()),
                    "an unnamed point unlike the others was refused",
                )
                return
            new = [x for x in group.cover_points() if x not in before]
            same(len(new), 1, "points added by one unnamed add")
            name = new[0]
            inner = f"u{self.unique}"
            self.unique += 1
            auto = target, list(spec)
            self.tags.add("unnamed")
        else:
            ret = group.add_watch_point(self.targets[target], made, **kw)
            inner = name
            auto = None
        check(ret is group, "add_watch_point does not return the group")
        ref.points[name] = {
            "target": target,
            "bins": spec,
            "hits": {b: 0 for b in spec},
            "once": ref.dis if once is None else once,
            "dynamic": dynamic,
            "inner": inner,
            "auto": auto,
        }
        for b in spec:
            self.evals.pop((g, inner, b), None)
            self.want_evals.pop((g, inner, b), None)
        ref.done = False

    def sample(self, g):
        group, ref = self.groups[g], self.refs[g]
        before = group.as_dict()["__sample_count__"]
        ref.calls += 1
        evaluated = False
        if not ref.stop and not ref.done:
            for name, pt in ref.points.items():
                if ref.covered(pt) and pt["once"]:
                    continue
                evaluated = True
                v = self.values[pt["target"]]
                for b, c in pt["bins"].items():
                    if c[0] == "fn":
                        key = (g, pt["inner"], b)
                        self.want_evals[key] = self.want_evals.get(key, 0) + 1
                    if bin_holds(c, v):
                        pt["hits"][b] += 1
            # whatever happened before: all covered and once means nothing to evaluate
            if all(ref.covered(x) and x["once"] for x in ref.points.values()):
                if ref.points:
                    self.tags.add("self-stopped")
        group.sample()
        after = group.as_dict()["__sample_count__"]
        if ref.done:
            same(after, before, "counted samples after a sample of a group that stopped by itself")
        elif evaluated:
            same(after, before + 1, "counted samples after a sample that evaluated something")
        elif ref.stop:
            same(after, before, "counted samples after a sample of a stopped group")
        else:
            check(after in (before, before + 1), "counted samples jump from %d to %d", before, after)
        full = ref.points and all(ref.covered(x) and x["once"] for x in ref.points.values())
        if full and not ref.stop:
            # nothing is left to evaluate: it stays stopped until the points change or it is resumed
            check(group.sample_stoped(), "the group with all points covered and once has not stopped")
            ref.done = True

    def step(self, op):
        k = op[0]
        self.tags.add(k)
        if k == "set":
            self.set(op[1], op[2])
            return
        g = op[1]
        group, ref = self.groups[g], self.refs[g]
        if k == "add":
            self.add(g, *op[2:])
        elif k == "sample":
            for _ in range(op[2]):
                self.sample(g)
        elif k in ("reset", "del"):
            ref.done = ref.done and op[2] not in ref.points
            call = group.reset_point if k == "reset" else group.del_point
            if op[2] not in ref.points:
                try:
                    call(op[2])
                except ValueError:
                    return
                check(False, "%s of an unknown point was accepted", k)
            check(call(op[2]) is group, "%s_point does not return the group", k)
            if k == "del":
                del ref.points[op[2]]
            else:
                pt = ref.points[op[2]]
                pt["hits"] = {b: 0 for b in pt["hits"]}
        elif k == "stop":
            group.stop_sample()
            ref.stop = True
        elif k == "resume":
            group.resume_sample()
            ref.stop = ref.done = False
        elif k == "clear":
            check(group.clear() is group, "clear() does not return the group")
            ref.clear()
        elif k == "bad":
            how = op[2]
            fc = self.fc
            args = {
                "bins": (self.obj, 5, "bad"),
                "bin": (self.obj, {"x": fc.Eq(1), "y": 7}, "bad"),
                "list": (self.obj, {"x": [fc.Eq(1), 7]}, "bad"),
                "none": (self.obj, None, "bad"),
                "dup": (self.obj, fc.Eq(1), next(iter(ref.points), None)),
            }[how]
            if args[2] is None:
                return
            try:
                group.add_watch_point(*args)
            except ValueError:
                return
            check(False, "invalid bins or name (%s) were accepted", how)

    # -------------------------------------------------------------- compare

    def compare(self, where):
        import json

        for g, (group, ref) in enumerate(zip(self.groups, self.refs)):
            d = group.as_dict()
            what = f"{where}, group {g}: "
            same(d["name"], group.name, what + "name of the group")
            same([x["name"] for x in d["points"]], list(ref.points), what + "points")
            same(list(group.cover_points()), list(ref.points), what + "cover_points()")
            hit = total = full = 0
            for x, (name, pt) in zip(d["points"], ref.points.items()):
                got = {b["name"]: b["hints"] for b in x["bins"]}
                same(got, pt["hits"], what + f"counts of point {name}")
                same(list(got), list(pt["hits"]), what + f"bin names of point {name}")
                cov = ref.covered(pt)
                same(x["hinted"], bool(cov and self.sampled(g, pt)), what + f"covered {name}")
                same(group.is_point_covered(name), x["hinted"], what + f"is_point_covered {name}")
                same(bool(x["once"]), pt["once"], what + f"once of {name}")
                same(bool(x["dynamic_bin"]), pt["dynamic"], what + f"dynamic_bin of {name}")
                total += len(pt["hits"])
                hit += sum(1 for n in pt["hits"].values() if n)
                full += cov
            if ref.points:
                same(group.is_all_covered(), full == len(ref.points), what + "is_all_covered()")
                same(d["hinted"], full == len(ref.points), what + "covered in as_dict()")
            same(d["bin_num_total"], total, what + "bin_num_total")
            same(d["bin_num_hints"], hit, what + "bin_num_hints")
            same(d["point_num_total"], len(ref.points), what + "point_num_total")
            same(d["point_num_hints"], full, what + "point_num_hints")
            same(d["has_once"], any(x["once"] for x in ref.points.values()), what + "has_once")
            same(d["__sample_calln__"], ref.calls, what + "calls of sample()")
            same(bool(d["__stop_sample__"]), ref.stop, what + "stop flag")
            same(json.loads(str(group)), json.loads(json.dumps(d)), what + "text form")
            if ref.stop:
                check(group.sample_stoped(), "%ssample_stoped() is false after stop_sample", what)
            elif any(not ref.covered(x) or not x["once"] for x in ref.points.values()):
                check(not group.sample_stoped(), "%ssample_stoped() without a reason", what)
            for name in ("nope", None):
                for call in (group.is_point_covered, group.cover_point):
                    try:
                        call(name)
                    except ValueError:
                        continue
                    check(False, "%san unknown point is accepted by a query", what)

    def sampled(self, g, pt):
        return True

    def compare_evals(self, where):
        for key, n in self.want_evals.items():
            same(self.evals.get(key, 0), n, f"{where}: evaluations of bin {key[2]} of {key[:2]}")
        for key, n in self.evals.items():
            if key is not None:
                same(n, self.want_evals.get(key, 0), f"{where}: evaluations of {key}")
