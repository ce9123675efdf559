import contextlib
import io
import itertools

from mc.base import Check

LEVELS = {"critical": 50, "error": 40, "warning": 30, "info": 20, "details": 15, "debug": 10, "debug2": 5}
WORDS = ("a", "winning", "{0, 1}", "x" * 69, "y" * 70, "z" * 95)
INDENTS = ("", " ", "    ", "> ")


class V01(Check):
    """Messages are shown according to the verbosity, completely and within the line width."""

    chunk = 10

    def units(self, tier):
        deep = tier == "thorough"
        for method in LEVELS:
            for v in (0, 4, 5, 6, 9, 10, 12, 15, 16, 20, 25, 30, 35, 40, 45, 50, 51, 100):
                yield ("level", method, v)
        for r in range(0, 5 if deep else 4):
            for words in itertools.product(range(len(WORDS)), repeat=r):
                yield ("text", words)
        for n in range(2, 30):
            yield ("long", n)

    def bounds(self, tier):
        return (
            "all methods x verbosity levels (the defined ones, their neighbours and values between) x wrap x logger;"
            f" all texts of up to {4 if tier == 'thorough' else 3} words from words of length 1..95, several lines, x indents {INDENTS} x wrap"
        )

    def show(self, unit):
        return str(unit)

    def unit_size(self, unit):
        return (len(str(unit)),)

    def tick(self, ctx, *key):
        for c in ("evaluations", "states", "transitions", "traces_validated_against_impl"):
            ctx.count(c)
        ctx.outcome(*key)

    def run(self, unit, ctx):
        getattr(self, unit[0])(ctx, *unit[1:])

    def shown(self, out, method, *args, **kw):
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            res = getattr(out, method)(*args, **kw)
        return buf.getvalue(), res

    def level(self, ctx, method, v):
        from abcvoting.output import Output, output

        class Logger:
            def __init__(self):
                self.got = []

            def log(self, level, msg, *args):
                self.got.append((level, msg))

        for wrap in (True, False):
            for how in ("constructor", "setter", "singleton"):
                for logger in (None, Logger()):
                    if how == "constructor":
                        out = Output(verbosity=v, logger=logger)
                    elif how == "setter":
                        out = Output(logger=logger)
                        out.set_verbosity(v)
                    else:
                        out = output
                        saved = out.verbosity, out.logger
                        out.logger = logger
                        out.set_verbosity(v)
                    try:
                        if out.verbosity != v:
                            ctx.fail("verbosity", f"{out.verbosity} after setting {v}")
                        text, _ = self.shown(out, method, "some message", wrap=wrap)
                        self.tick(ctx, method, v, text)
                        want = "some message\n" if LEVELS[method] >= v else ""
                        if text != want:
                            ctx.fail("level", f"{method} at verbosity {v}: printed {text!r}")
                        if logger is not None:
                            std = {"details": 10, "debug2": 10}.get(method, LEVELS[method])
                            if logger.got != [(std, "some message")]:
                                ctx.fail("logger", f"{method} at verbosity {v}: logged {logger.got}")
                    finally:
                        if how == "singleton":
                            out.verbosity, out.logger = saved
        out = Output(verbosity=1)
        out.set_verbosity()
        if out.verbosity != 30 or Output().verbosity != 30:
            ctx.fail("verbosity", "the default is not WARNING")

    def text(self, ctx, words):
        words = [WORDS[i] for i in words]
        self.check(ctx, " ".join(words))
        if len(words) > 1:
            self.check(ctx, "\n".join(words))
            self.check(ctx, words[0] + "\n\n" + " ".join(words[1:]) + "\n")

    def long(self, ctx, n):
        self.check(ctx, " ".join(str(i) for i in range(n)))
        self.check(ctx, "\n".join(" ".join("w" * j for j in range(1, i)) for i in range(2, n)))

    def check(self, ctx, msg):
        from abcvoting.output import WIDTH, Output

        for method in ("info", "details", "warning", "debug2"):
            for indent in INDENTS:
                out = Output(verbosity=0)
                raw, _ = self.shown(out, method, msg, wrap=False)
                self.tick(ctx, len(msg))
                if raw != msg + "\n":
                    ctx.fail("wrap=False", f"{msg!r} printed as {raw!r}")
                text, _ = self.shown(out, method, msg, indent=indent)
                self.tick(ctx, text)
                if text[-1:] != "\n":
                    ctx.fail("wrap", "no end of line")
                lines = text[:-1].split("\n")
                content = []
                for line in lines:
                    if line and not line.startswith(indent):
                        ctx.fail("indent", f"{line!r} is not indented by {indent!r}")
                    body = line[len(indent) :]
                    content += body.split()
                    if len(line) > WIDTH and len(body.split()) > 1:
                        ctx.fail("width", f"line of {len(line)} characters")
                if content != msg.split():
                    ctx.fail("content", f"{msg!r} printed as {text!r}")
                # line breaks of the message are kept: each of its lines starts a new line
                starts = [p.split()[0] for p in msg.split("\n") if p.split()]
                firsts = [x[len(indent) :].split()[0] for x in lines if x[len(indent) :].split()]
                it = iter(firsts)
                if not all(any(s == x for x in it) for s in starts):
                    ctx.fail("lines", f"{msg!r} printed as {text!r}")
                if len(lines) < len(msg.split("\n")):
                    ctx.fail("lines", f"{msg!r}: {len(lines)} lines printed")


CHECK = V01()
