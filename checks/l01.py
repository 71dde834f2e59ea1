"""Logging delivers each record once, as configured."""

import logging
import os
import re
import shutil
import sys
import tempfile
import traceback

from hypothesis import strategies as st

from lib.common import check, same
from lib.runner import Part

ID = "L01"
RULE = (
    "A case is a sequence of setup_logging calls (level, format, console, fresh or reused log file, or "
    "their defaults) and log calls of every kind, severity, id and argument form; the console (file "
    "descriptors 1 and 2) and every log file are read back and compared, colours removed, with the "
    "records expected under the configuration in force, and the summary and id counts with the "
    "number delivered. Non-trivial: three configurations, records above and below the level, an id, a "
    "file and the console."
)
ASSUMPTIONS = [
    "Only the records since the last setup that names a file are expected in it (it is truncated).",
    "Colours and the counts' textual layout are not specified; levels have their standard names.",
    "Records logged with an empty id are counted under some name of their own.",
]

LEVELS = [10, 20, 30, 40, 50]
PIECES = ["%(name)s", "%(levelname)s", "%(filename)s:%(lineno)d", "%(log_id)s", "[%(levelno)d]", "%(funcName)s", " ", "|", "@", "\t"]
DEFAULT = "%(name)s_%(levelname)s @%(filename)s:%(lineno)d%(log_id)s:\t%(message)s"
KINDS = ["debug", "info", "warning", "error", "critical"]


@st.composite
def setup_op(draw):
    fmt = None
    if draw(st.booleans()):
        parts = draw(st.lists(st.sampled_from(PIECES), max_size=5))
        parts.insert(draw(st.integers(0, len(parts))), "%(message)s")
        if draw(st.integers(0, 2)):
            parts.insert(draw(st.integers(0, len(parts))), "%(log_id)s")
        fmt = "".join(parts)
    return [
        "setup",
        draw(st.sampled_from([None, "WARNING", 1, 15, 35, 60] + LEVELS * 2)),
        fmt,
        draw(st.sampled_from([None, True, False, True])),
        draw(st.sampled_from([None, "new", "new", "same"])),
    ]


@st.composite
def log_op(draw):
    kind = draw(st.sampled_from(KINDS * 2 + ["log", "log", "exception"]))
    return [
        "log",
        kind,
        draw(st.sampled_from(LEVELS + [5, 25, 45])) if kind == "log" else None,
        draw(st.sampled_from(["module", "toffee", "logger"])),
        draw(st.sampled_from(["plain", "with %d", "%s of %s", "100%", "two\nlines", "", "many " * 60 + "end", "gr\xfc\xdf \u4fe1\u53f7"])),
        draw(st.sampled_from([None, None, "", "dut", "a b", 7, 0, "7", "Dut", "dut ", "dut.core", "%d", "d\xfc"])),
    ]


@st.composite
def plan(draw):
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        ops.append(draw(setup_op()))
        for _ in range(draw(st.integers(0, 6))):
            ops.append(["summary"] if draw(st.integers(0, 9)) == 0 else draw(log_op()))
    return {"ops": ops}


ANSI = re.compile("\x1b\\[[0-9;]*m")


class Capture:
    """Both standard descriptors in a file for the time of a case."""

    def __init__(self, path):
        self.path = path

    def __enter__(self):
        self.flush()
        self.saved = os.dup(1), os.dup(2)
        fd = os.open(self.path, os.O_CREAT | os.O_WRONLY | os.O_APPEND, 0o600)
        os.dup2(fd, 1)
        os.dup2(fd, 2)
        os.close(fd)
        return self

    def flush(self):
        for s in (sys.stdout, sys.stderr, sys.__stdout__, sys.__stderr__):
            s.flush()

    def __exit__(self, *exc):
        self.flush()
        for n, fd in zip((1, 2), self.saved):
            os.dup2(fd, n)
            os.close(fd)

    def text(self):
        self.flush()
        return read(self.path)


def read(path):
    with open(path) as f:
        return ANSI.sub("", f.read())


def render(fmt, name_level, levelno, msg, log_id, line, tail=""):
    ident = "" if log_id is None or log_id == "" else f"(id: {log_id})"
    out = fmt
    for k, v in {
        "name)s": "TOFFEE",
        "levelname)s": name_level,
        "filename)s": "l01.py",
        "lineno)d": line,
        "levelno)d": levelno,
        "funcName)s": "emit",
        "log_id)s": ident,
    }.items():
        out = out.replace("%(" + k, str(v))
    # last, so that nothing in the message is taken for a field
    return out.replace("%(message)s", msg) + tail + "\n"


def emit(target, kind, level, template, args, kw):
    if kind == "log":
        target.log(level, template, *args, **kw); return sys._getframe().f_lineno, ""  # fmt: skip
    if kind == "exception":
        try:
            raise KeyError("boom")
        except KeyError as exc:
            target.exception(template, *args, **kw); line = sys._getframe().f_lineno  # fmt: skip
            return line, "\n" + "".join(traceback.format_exception(exc))[:-1]
    getattr(target, kind)(template, *args, **kw); return sys._getframe().f_lineno, ""  # fmt: skip


def counts(text):
    return {k: int(v) for k, v in re.findall(r"^([A-Za-z][\w ]*):\s*(\d+)\s*$", text, re.M)}


def run(p):
    import toffee
    import toffee.logger

    tmp = tempfile.mkdtemp(prefix="vp-l01-")
    try:
        with Capture(os.path.join(tmp, "console")) as cap:
            try:
                return body(p, tmp, cap, toffee)
            finally:
                toffee.setup_logging(console_display=False)
    finally:
        shutil.rmtree(tmp)


def summary_counts(toffee, tmp):
    """The severity counts as printed by summary(), itself a record."""
    path = os.path.join(tmp, "summary")
    toffee.setup_logging(log_level=logging.INFO, console_display=False, log_file=path)
    toffee.summary()
    toffee.setup_logging(console_display=False)
    return counts(read(path))


def body(p, tmp, cap, toffee):
    lg = toffee.get_logger()
    targets = {"module": toffee.logger, "toffee": toffee, "logger": lg}
    # counts by id are an attribute only; without it they are not observable
    stats = getattr(getattr(toffee.logger, "stats_handler", None), "id_stats", None)
    before = summary_counts(toffee, tmp)
    ids_before = dict(stats or {})
    console = ""
    files = {}  # path -> expected text
    current = None
    cfg = None
    sev, ids = {"INFO": 1}, {None: 1}  # the summary record of before
    tags = set()
    n_setup = n_file = n_console = above = below = n_id = 0
    for i, op in enumerate(p["ops"]):
        if op[0] == "setup":
            kw = {}
            _, level, fmt, disp, file = op
            if level is not None:
                kw["log_level"] = level
            if fmt is not None:
                kw["format"] = fmt
            if disp is not None:
                kw["console_display"] = disp
            current = None
            if file == "same" and files:
                current = list(files)[-1]
            elif file:
                current = os.path.join(tmp, f"log{len(files)}")
            if current:
                kw["log_file"] = current
                files[current] = ""
            toffee.setup_logging(**kw)
            level = 30 if level in (None, "WARNING") else level
            cfg = level, DEFAULT if fmt is None else fmt, disp is not False
            n_setup += 1
        elif op[0] == "summary":
            toffee.summary()
            if 20 >= cfg[0]:
                sev["INFO"] = sev.get("INFO", 0) + 1
                ids[None] = ids.get(None, 0) + 1
                # its text is not specified, only where it appears
                for where, got, want in [("console", cap.text(), console if cfg[2] else None)] + [
                    (f, read(f), files[f]) for f in [current] if f
                ]:
                    if want is None:
                        continue
                    check(got.startswith(want), "step %d: %s changed by summary()", i, where)
                    new = got[len(want) :]
                    same(new.count("Log Summary"), 1, f"step {i}: summaries on {where}")
                    have = counts(new)
                    for k, n in sev.items():
                        total = before.get(k, 0) + n - (k == "INFO")
                        same(have.get(k, 0), total, f"step {i}: count of {k} in the summary")
                    if where == "console":
                        console = got
                    else:
                        files[where] = got
        else:
            _, kind, level, via, template, log_id = op
            target = targets[via]
            if via == "toffee" and not hasattr(toffee, kind):
                target = lg
            args = {"with %d": (i,), "%s of %s": ("x", i)}.get(template, ())
            msg = template % args if args else template
            kw = {} if log_id is None else {"extra": {"log_id": log_id}}
            line, tail = emit(target, kind, level, template, args, kw)
            levelno = level or {"exception": 40}.get(kind) or LEVELS[KINDS.index(kind)]
            name = logging.getLevelName(levelno)
            tags.add(kind)
            if levelno >= cfg[0]:
                above += 1
                n_id += bool(log_id)
                sev[name] = sev.get(name, 0) + 1
                ids[log_id] = ids.get(log_id, 0) + 1
                text = render(cfg[1], name, levelno, msg, log_id, line, tail)
                if cfg[2]:
                    console += text
                    n_console += 1
                if current:
                    files[current] += text
                    n_file += 1
            else:
                below += 1
        same(cap.text(), console, f"step {i} {op}: console")
        for f, want in files.items():
            same(read(f), want, f"step {i} {op}: {os.path.basename(f)}")
        if stats is None:
            continue
        got = dict(stats)
        for k in set(ids) - {None, ""}:
            same(got.get(k, 0) - ids_before.get(k, 0), ids[k], f"step {i}: count of id {k!r}")
        extra = sum(got.values()) - sum(ids_before.values())
        same(extra, sum(ids.values()) - 1, f"step {i}: records counted by id")
    after = summary_counts(toffee, tmp)
    for k in set(after) | set(sev):
        same(after.get(k, 0) - before.get(k, 0), sev.get(k, 0), f"final count of {k}")
    return n_setup > 2 and n_file and n_console and above and below and n_id, tags


PARTS = [Part("logging", plan, run, 2000)]
