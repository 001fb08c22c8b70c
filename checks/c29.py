"""C29: logging emits each record once, at the configured level and format."""
import io
import logging
import sys

from torchrir.logging import LoggingConfig, get_logger, setup_logging
from vf.tr import raises

ID = "C29"
ISOLATE = True
TECH = "runtime monitor on the emitted stream: random histories of (re)configuration and logging run in a fresh process each, every line that reaches stderr and every record that propagates to the root is recorded and compared, record by record, with a small model of the last configuration"
NOTE = "Level 0 (NOTSET), which has its own standard-library meaning, and handlers replaced behind torchrir's back are not judged."
RULE = "histories of 6..30 operations: setup_logging with random level (names in any case, numbers, custom names), format, datefmt, propagate; get_logger with random names; log calls at every level; invalid configurations; class = (ops so far, level, propagate, format)"
NEED = {"assertions": 4000, "records": 2500, "reconfigured": 400}
FMT = ["%(levelname)s:%(name)s:%(message)s", "%(message)s", "[%(levelno)d] %(name)s | %(message)s", "%(asctime)s %(message)s"]
NAMES = [None, "", "torchrir", "torchrir.sim", "examples.static", "a", "a.b", "torchrirx", "torchrir_tools.x", "TORCHRIR", "torchrir.torchrir", "root"]
SMALL = [None, "sim", "a.b", "torchrir.sim.ism"]


def cases(tier):
    n = 520 if tier == "quick" else 33000
    return [{"kind": k, "i": i} for i in range(n) for k in (["base", "base", "multi"] if i % 3 else ["base", "user", "bad"])]


def expected_name(n):
    if not n:
        return "torchrir"
    return n if n == "torchrir" or n.startswith("torchrir.") else "torchrir." + n


def run(spec, ctx):
    r = ctx.rng
    kind = spec["kind"]
    err = io.StringIO()
    sys.stderr = err
    root = logging.getLogger()
    rootrec = []

    class RootH(logging.Handler):
        def emit(self, rec):
            rootrec.append((rec.name, rec.levelno, rec.getMessage()))

    root.addHandler(RootH())
    root.setLevel(1)
    base = logging.getLogger("torchrir")
    E = ctx.expect
    E(base.handlers == [], "import-handlers", f"importing torchrir installed {base.handlers}")
    E(base.level == 0 and base.propagate, "import-config", "importing torchrir configured its logger")
    logging.addLevelName(5, "TRACE")
    user = []

    class UserH(logging.Handler):
        def emit(self, rec):
            user.append(rec.getMessage())

    uh = UserH()
    user_first = kind == "user" and bool(r.integers(2))
    if user_first:
        base.addHandler(uh)
    has_user = user_first
    conf = None  # (level number, fmt, datefmt, propagate)
    sub = {}  # name -> conf, for loggers other than the base
    levels = ["DEBUG", "info", "Warning", "WARN", "ERROR", "critical", "FATAL", "trace", 10, 15, 20, 25, 31, 50, 1]
    num = dict(DEBUG=10, INFO=20, WARNING=30, WARN=30, ERROR=40, CRITICAL=50, FATAL=50, TRACE=5)
    k = 0
    trace = []

    def line(c, rec_name, lv, msg):
        rec = logging.LogRecord(rec_name, lv, "", 0, msg, (), None)
        return logging.Formatter(c[1], datefmt=c[2]).format(rec)

    def chain(name):
        out = [name]
        while "." in name:
            name = name.rsplit(".", 1)[0]
            out.append(name)
        return out

    for _ in range(int(r.integers(6, 31))):
        op = r.uniform()
        if op < 0.3 or (conf is None and op < 0.5):
            lv = levels[int(r.integers(len(levels)))]
            fmt = FMT[int(r.integers(len(FMT)))]
            prop = bool(r.integers(2))
            a = dict(level=lv, propagate=prop)
            if r.uniform() < 0.15:  # documented defaults: INFO, level:name:message, no propagation
                fmt, lv, prop, a = FMT[0], "INFO", False, {}
            dft = None
            if fmt != FMT[0] or r.integers(2):
                a["format"] = fmt
            if "asctime" in fmt:
                dft = a["datefmt"] = ["literal", "t"][int(r.integers(2))]
            cfg = LoggingConfig(**a)
            if r.uniform() < 0.3:
                c0 = LoggingConfig(level="ERROR", format="X%(message)s")
                cfg = c0.replace(level=lv, format=fmt, datefmt=dft, propagate=prop)
                E(c0.level == "ERROR" and c0.format == "X%(message)s", "replace", "replace changed the original configuration")
            n = num[lv.upper()] if isinstance(lv, str) else lv
            E(cfg.resolve_level() == n, "level", f"{lv!r} resolved to {cfg.resolve_level()}")
            c = (n, fmt, dft, prop)
            if kind == "multi" and r.uniform() < 0.5:
                nm = ["torchrir.sim", "torchrir.a", "torchrir.a.b"][int(r.integers(3))]
                lg = setup_logging(cfg, name=nm)
                sub[nm] = c
                E(lg is logging.getLogger(nm), "returned", f"setup_logging returned {lg}")
                trace.append((nm, c))
            else:
                lg = setup_logging(cfg)
                if conf is not None:
                    ctx.count("reconfigured")
                conf = c
                E(lg is base, "returned", f"setup_logging returned {lg}")
                trace.append(c)
        elif op < 0.36 and kind == "bad":
            bad = ["nope", "INFOS", "", None, 1.5, b"INFO", ["INFO"], "10"][int(r.integers(8))]
            want = ValueError if isinstance(bad, str) else TypeError
            ok, e = raises(want, lambda: setup_logging(LoggingConfig(level=bad, format="BAD", propagate=not (conf and conf[3]))))
            E(ok, "bad-level", f"level {bad!r} gave {e!r}")
            trace.append(("bad", repr(bad)))
        elif op < 0.42 and kind == "user" and not has_user:
            base.addHandler(uh)
            has_user = True
        else:
            pool = SMALL if kind != "multi" else ["sim", "a", "a.b", "a.b.c", None]
            nm = pool[int(r.integers(len(pool)))] if r.uniform() < 0.6 or kind == "multi" else NAMES[int(r.integers(len(NAMES)))]
            lg = get_logger(nm) if nm is not None or r.integers(2) else get_logger()
            want = expected_name(nm)
            E(lg is logging.getLogger(want), "name", f"get_logger({nm!r}) is {lg.name!r}")
            if conf is None:
                continue
            for _ in range(int(r.integers(1, 4))):
                lv = int(r.choice([5, 10, 15, 20, 25, 30, 31, 40, 50]))
                k += 1
                msg = f"m{k} 100%"
                err.seek(0)
                err.truncate(0)
                rootrec.clear()
                user.clear()
                lg.log(lv, msg)
                got = err.getvalue()
                # model
                ch = [x for x in chain(want) if x == "torchrir" or x in sub]
                cs = {"torchrir": conf, **sub}
                eff = cs[ch[0]][0]
                exp = ""
                up = True
                if lv >= eff:
                    for x in ch:
                        if lv >= cs[x][0] and up:
                            exp += line(cs[x], want, lv, msg) + "\n"
                        if not cs[x][3]:
                            up = False
                exp_root = [(want, lv, msg)] if lv >= eff and up else []
                if not user_first:
                    if kind == "multi":
                        E(sorted(got.splitlines()) == sorted(exp.splitlines()), "emitted", f"level {lv} on {want}: emitted {got!r}, expected {exp!r}", trace=trace[-6:])
                    else:
                        E(got == exp, "emitted", f"level {lv} on {want}: emitted {got!r}, expected {exp!r}", trace=trace[-6:])
                else:
                    E(got in ("", exp), "emitted-user", f"emitted {got!r} beside the user's handler", trace=trace[-6:])
                E(rootrec == exp_root, "propagated", f"level {lv} on {want}: root saw {rootrec}, expected {exp_root}", trace=trace[-6:])
                if has_user:
                    E(user == ([msg] if lv >= eff else []), "user-handler", f"the user's handler saw {user}", trace=trace[-6:])
                ctx.count("records")
                ctx.nontrivial(kind, lv >= eff, conf[3], conf[1], min(len(trace), 5), want)
    if has_user:
        E(uh in base.handlers, "user-removed", "the user's handler was removed")
    E(root.level == 1 and len([h for h in root.handlers if isinstance(h, RootH)]) == 1 and len(root.handlers) == 1, "root", "the root logger was reconfigured")
    ctx.sample(dict(kind=kind, trace=trace[:4]))
