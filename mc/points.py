"""Points inside a call at which something may happen: before each source line, or each bytecode instruction, of frds."""
import ast
import os
import sys


def _ours(code):
    return "/frds/" in code.co_filename


def clean_up(filename, _cache={}):
    """Source lines of exception handlers and finally blocks."""
    if filename not in _cache:
        lines = set()
        try:
            with open(filename, newline="") as f:
                t = ast.parse(f.read())
        except (OSError, SyntaxError):
            t = ast.Module([], [])
        for n in ast.walk(t):
            if isinstance(n, ast.Try):
                for part in n.handlers + n.finalbody:
                    lines.update(range(part.lineno, part.end_lineno + 1))
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name in ("__exit__", "__del__"):
                lines.update(range(n.lineno, n.end_lineno + 1))
        _cache[filename] = lines
    return _cache[filename]


def tracer(on_event, instructions):
    """A function for sys.settrace that calls on_event(frame) before every line (instruction)."""
    kind = "opcode" if instructions else "line"
    if instructions:
        sys._getframe().f_trace_opcodes = True  # so that settrace, called next, asks for instruction events

    def local(frame, event, arg):
        if event == kind:
            on_event(frame)
        return local

    def start(frame, event, arg):
        if _ours(frame.f_code):
            if instructions:
                frame.f_trace_opcodes, frame.f_trace_lines = True, False
            return local
        return None

    return start


def events(body, instructions=False):
    """Runs body(); returns the place (code, line or instruction) of each event in order, and whether it is in clean-up code."""
    out = []

    def on(frame):
        c = frame.f_code
        if not (frame.f_lineno or 0) > 0:
            return  # a generator that is being closed
        out.append(((c.co_filename, c.co_firstlineno, c.co_name, frame.f_lasti if instructions else frame.f_lineno), frame.f_lineno in clean_up(c.co_filename)))

    old = sys.gettrace()
    sys.settrace(tracer(on, instructions))
    try:
        body()
    except Exception:
        pass
    finally:
        sys.settrace(old)
    return out


def select(evs, per_place, skip_clean_up=False):
    """Indices of the first per_place[0] and the last per_place[1] events at each place."""
    first, last = per_place
    at = {}
    for i, (place, cu) in enumerate(evs):
        if not (cu and skip_clean_up):
            at.setdefault(place, []).append(i)
    out = set()
    for idx in at.values():
        out.update(idx[:first])
        if last:
            out.update(idx[-last:])
    return sorted(out)


def at_event(body, k, action, instructions=False):
    """Runs body() and calls action() before event k (once). An exception of action is raised there. Returns (result, reached)."""
    state = [0]

    def on(frame):
        if not (frame.f_lineno or 0) > 0:
            return
        state[0] += 1
        if state[0] == k + 1:
            sys.settrace(None)
            f = frame
            while f is not None:
                f.f_trace = None
                f = f.f_back
            action()

    sys.settrace(tracer(on, instructions))
    try:
        res = body()
    finally:
        sys.settrace(None)
    return res, state[0] > k
