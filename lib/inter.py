"""Interactive sessions: write a text and a null, wait for the answer and its null, and so on."""
import os, select, subprocess, time
import core
from proc import cps


class Session:
    def __init__(self, ctx, tool, args, patience=20):
        ctx.cmds += 1
        self.ctx, self.patience = ctx, patience if ctx.hangs < 8 else 3
        self.p = subprocess.Popen([os.path.join(ctx.bin, tool)] + list(args), stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=core.ENV, cwd=ctx.scratch)
        self.buf = b""

    def write(self, data):
        try:
            self.p.stdin.write(data)
            self.p.stdin.flush()
        except (BrokenPipeError, ValueError):
            pass

    def _more(self, end):
        r, _, _ = select.select([self.p.stdout], [], [], max(0, end - time.time()))
        if not r:
            self.ctx.hangs += 1
            return None
        return os.read(self.p.stdout.fileno(), 65536)

    def answer(self):
        """everything up to the next null; None if it does not come"""
        end = time.time() + self.patience
        while b"\0" not in self.buf:
            x = self._more(end)
            if not x:
                return None
            self.buf += x
        a, _, self.buf = self.buf.partition(b"\0")
        return a

    def close(self):
        try:
            self.p.stdin.close()
        except (BrokenPipeError, OSError):
            pass

    def rest(self):
        end = time.time() + self.patience
        while True:
            x = self._more(end)
            if x is None:
                self.p.kill()
                self.p.wait()
                return self.buf, -99
            if not x:
                break
            self.buf += x
        try:
            return self.buf, self.p.wait(timeout=self.patience)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
            return self.buf, -99


def alone(ctx, tool, args, text):
    """the answer of the tool, in its initial state, to one text"""
    rc, so, se = ctx.run(tool, args, stdin=text.encode("utf-8") + b"\0")
    if rc != 0 or b"\0" not in so or so.split(b"\0", 1)[1].strip(b"\0"):
        return None
    return cps(so.split(b"\0", 1)[0])


def session(ctx, tool, args, texts, order, last=None):
    """events of a session that sends texts[i] for i in order, then (last) a text without a null"""
    ev = []
    s = Session(ctx, tool, args)
    for t in order:
        s.write(texts[t].encode("utf-8") + b"\0")
        ev.append({"e": "send", "t": t + 1})
        a = s.answer()
        if a is None:
            ev.append({"e": "hang", "out": cps(s.buf), "t": t + 1, "rc": 0})
            s.p.kill()
            s.p.wait()
            return ev
        ev.append({"e": "got", "out": cps(a)})
    if last is not None:
        s.write(texts[last].encode("utf-8"))
        s.close()
        out, rc = s.rest()
        ev += [{"e": "last", "t": last + 1, "out": cps(out)}, {"e": "close"}, {"e": "end", "out": [], "rc": rc}]
    else:
        s.close()
        out, rc = s.rest()
        ev += [{"e": "close"}, {"e": "end", "out": cps(out), "rc": rc}]
    return ev
