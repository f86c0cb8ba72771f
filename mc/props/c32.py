"""Sample datasets: isolation of accesses over histories and over thread schedules."""
import csv
import heapq
import io
import itertools
import os
import sys
import threading
import time
import zipfile

import numpy as np

from mc import impl

ID = "C32"
BOUNDS = (
    "every history of up to 3 (thorough 4) operations - access, twelve ways of changing a frame in place, a new instance, another working directory - followed by an access; every interleaving, "
    "at the granularity of source lines, of 2 threads making their first or a later access at once, one of them changing what it got; oracle: the file parsed independently"
)
ASSUMPTIONS = ["a frame is changed through pandas or through the array of values; raw buffers of an index are not written"]
OPS = ("access", "set", "iloc", "values", "drop_col", "add_col", "rename", "sort", "drop_rows", "index_name", "columns", "to_numpy", "fill", "attrs", "new", "chdir")


def cases(tier):
    n = 3 if tier == "quick" else 4
    for a in OPS:
        yield {"first": a, "n": n}
    for first in ("cold", "warm"):
        for act in ("read", "change"):
            yield {"threads": first, "act": act}
    yield {"content": 1}


_file = None


def parsed():
    """(columns, dates, values) of the file."""
    global _file
    if _file is None:
        p = os.path.join(os.path.dirname(impl.native.datasets.__file__), "stocks_us.csv.zip")
        with zipfile.ZipFile(p) as z:
            rows = list(csv.reader(io.StringIO(z.read(z.namelist()[0]).decode())))
        _file = (rows[0][1:], [r[0] for r in rows[1:]], np.array([[float(x) for x in r[1:]] for r in rows[1:]]))
    return _file


def intact(X, df, **d):
    cols, dates, vals = parsed()
    X.true(list(df.columns) == cols, "columns of the dataset", got=list(df.columns)[:6], **d)
    X.true(df.shape == vals.shape, "size of the dataset", got=df.shape, **d)
    X.true(df.index.name == "Date" and df.columns.name is None, "index of the dataset", got=str(df.index.name), **d)
    X.true(np.array_equal(df.index.values, np.array(dates, dtype="datetime64[ns]")), "dates of the dataset", **d)
    X.true(np.allclose(df.to_numpy(dtype=float), vals, rtol=1e-12, atol=1e-15), "values of the dataset", **d)
    X.true(not df.attrs, "attributes of the dataset", got=str(df.attrs), **d)


def change(df, op):
    c = df.columns[0] if len(df.columns) else None
    if op == "set":
        df.loc[df.index[0], c] = 77.0
    elif op == "iloc":
        df.iloc[3:5, 1] = -1.0
    elif op == "values":
        df.values[:] = 5.0
    elif op == "drop_col":
        df.drop(columns=[c], inplace=True)
    elif op == "add_col":
        df["extra"] = 1.0
    elif op == "rename":
        df.rename(columns={c: "other"}, inplace=True)
    elif op == "sort":
        df.sort_index(ascending=False, inplace=True)
    elif op == "drop_rows":
        df.drop(index=df.index[:2], inplace=True)
    elif op == "index_name":
        df.index.name = "when"
        df.columns.name = "ticker"
    elif op == "columns":
        df.columns = ["c%d" % i for i in range(len(df.columns))]
    elif op == "to_numpy":
        df.to_numpy(copy=False)[0, 0] = 9.0
        df[c].values[:2] = 3.0
    elif op == "fill":
        df *= 0.0
        df.fillna(1.0, inplace=True)
    elif op == "attrs":
        df.attrs["note"] = "mine"


def fresh():
    """The module as it is right after import."""
    m = impl.native.datasets
    inst = m.StockReturns
    inst.__dict__.pop("_stocks_us", None)
    return inst


def run(case, X):
    if "content" in case:
        cols, dates, vals = parsed()
        df = fresh().stocks_us
        X.state("content")
        X.edge()
        X.trace()
        intact(X, df)
        X.true(df.index.is_monotonic_increasing and df.index.is_unique, "dates are not increasing")
        X.true({"GOOGL", "GS", "JPM", "^GSPC"} <= set(df.columns), "documented tickers", got=list(df.columns))
        X.true(str(df.index[0].year) == "2010" and df.index[-1].year == 2022, "documented period")
        X.true(bool(np.isfinite(vals).all()), "missing returns")
        return
    if "threads" in case:
        return threads(case, X)
    cwd = os.getcwd()
    here = os.path.dirname(os.path.abspath(__file__))
    try:
        for n in range(1, case["n"] + 1):
            for tail in itertools.product(OPS, repeat=n - 1):
                hist = (case["first"],) + tail
                inst = fresh()
                held = []
                for op in hist:
                    X.edge()
                    if op == "access":
                        held.append((inst.stocks_us, None))
                        intact(X, held[-1][0], history=hist)
                    elif op == "new":
                        inst = type(inst)()
                        intact(X, inst.stocks_us, history=hist)
                    elif op == "chdir":
                        os.chdir(here if os.getcwd() == cwd else cwd)
                    else:
                        df = inst.stocks_us
                        intact(X, df, history=hist)
                        before = [(h, h.copy()) for h, _ in held]
                        change(df, op)
                        for h, b in before:
                            X.true(h.equals(b) and list(h.columns) == list(b.columns) and h.index.name == b.index.name, "changing one frame changes another", history=hist)
                        held.append((df, None))
                X.trace()
                X.state(hist)
                intact(X, inst.stocks_us, history=hist)
                intact(X, impl.native.datasets.StockReturns.stocks_us, history=hist)
                X.outcome(len(held))
    finally:
        os.chdir(cwd)
    X.sample({"first": case["first"], "length": case["n"]})


class Baton:
    """Runs threads so that exactly one moves at a time; each source line of the dataset package is one step.

    A thread that does not reach its next step within a second waits for a lock: it is set aside until it moves."""

    def __init__(self, bodies, choices, folder):
        self.choices, self.folder = choices, folder
        self.cv = threading.Condition()
        self.alive, self.blocked = [True] * len(bodies), [False] * len(bodies)
        self.turn, self.k, self.log, self.ready, self.stop = None, 0, [], 0, False
        self.errors = [None] * len(bodies)
        self.threads = [threading.Thread(target=self.body, args=(i, b), daemon=True) for i, b in enumerate(bodies)]

    def body(self, i, b):
        def local(frame, event, arg):
            if event == "line":
                self.step(i)
            return local

        def glob(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(self.folder) else None

        with self.cv:
            self.ready += 1
            self.cv.notify_all()
            self.cv.wait_for(lambda: self.turn == i)
        sys.settrace(glob)
        try:
            b()
        except BaseException as e:
            self.errors[i] = e
        finally:
            sys.settrace(None)
            with self.cv:
                self.alive[i] = self.blocked[i] = False
                if self.turn == i:
                    self.turn = None
                self.cv.notify_all()

    def step(self, i):
        with self.cv:
            self.blocked[i] = False
            if self.turn == i:
                self.turn = None
            self.cv.notify_all()
            self.cv.wait_for(lambda: self.turn == i or self.stop)

    def run(self):
        """Follows the choices, then stays with a thread as long as it can. Returns the log, or None if the schedule could not be followed."""
        for t in self.threads:
            t.start()
        with self.cv:
            self.cv.wait_for(lambda: self.ready == len(self.threads))
            while any(self.alive):
                en = [i for i, a in enumerate(self.alive) if a and not self.blocked[i]]
                if not en:
                    if self.cv.wait_for(lambda: any(a and not b for a, b in zip(self.alive, self.blocked)) or not any(self.alive), timeout=20):
                        continue
                    return "deadlock"
                if self.k < len(self.choices):
                    c = self.choices[self.k]
                    if c not in en:
                        self.choices = []
                        c = en[0]
                else:
                    last = self.log[-1][0] if self.log else None
                    c = last if last in en else en[0]
                self.k += 1
                self.log.append((c, en))
                self.turn = c
                self.cv.notify_all()
                if not self.cv.wait_for(lambda: self.turn is None, timeout=1.0):
                    self.blocked[c] = True
                    self.turn = None
        for t in self.threads:
            t.join()
        return self.log


def threads(case, X):
    folder = os.path.dirname(impl.native.datasets.__file__)
    t0 = time.time()
    # those with the fewest preemptions first, so that a bound on the number leaves out the most intricate ones only
    queue = [(0, 0, [])]
    n = made = 0
    while queue:
        prefix = heapq.heappop(queue)[2]
        inst = fresh()
        if case["threads"] == "warm":
            inst.stocks_us
        got = [None, None]

        def reader(i):
            def body():
                df = inst.stocks_us
                if i == 0 and case["act"] == "change":
                    df.iloc[:, :] = -3.0
                    df.drop(columns=[df.columns[0]], inplace=True)
                got[i] = df
            return body

        baton = Baton([reader(0), reader(1)], prefix, folder)
        log = baton.run()
        X.true(log != "deadlock", "two accesses wait for each other", schedule=[c for c, _ in baton.log])
        for e in baton.errors:
            if e is not None:
                raise e
        n += 1
        X.trace()
        X.edge(len(log))
        X.state(case["threads"], case["act"], [c for c, _ in log])
        d = dict(schedule=[c for c, _ in log], first=case["threads"])
        X.true(got[1] is not None and got[0] is not None, "an access failed", **d)
        intact(X, got[1], **d)
        if case["act"] == "read":
            intact(X, got[0], **d)
        X.true(got[0] is not got[1] and not np.shares_memory(got[0].to_numpy(copy=False), got[1].to_numpy(copy=False)), "two accesses share memory", **d)
        intact(X, inst.stocks_us, **d)
        # alternatives at every point after the prefix
        for k in range(len(prefix), len(log)):
            for a in log[k][1]:
                if a != log[k][0]:
                    to = [c for c, _ in log[:k]] + [a]
                    made += 1
                    heapq.heappush(queue, (sum(j > 0 and to[j] != to[j - 1] and to[j - 1] in log[j][1] for j in range(len(to))), made, to))
        if n > 4000 or time.time() - t0 > 120:
            X.capped = "schedules"
            break
    X.count("schedules", n)
    X.sample({"threads": case["threads"], "schedules": n})
