"""What a process is like apart from the objects in use: to be the same before and after."""
import decimal, gc, locale, logging, os, random, signal, sys, tempfile, threading, types, warnings
import numpy as np, pandas as pd
import matplotlib


def options(tree, path="", out=None):
    out = {} if out is None else out
    for k, v in tree.items():
        if isinstance(v, dict):
            options(v, path + k + ".", out)
        else:
            out[path + k] = repr(v)
    return out


def descriptors():
    out = {}
    for fd in os.listdir("/proc/self/fd"):
        try:
            out[int(fd)] = os.readlink("/proc/self/fd/" + fd)
        except OSError:
            pass        # that of the listing
    return out


def children():
    out = []
    for t in os.listdir("/proc/self/task"):
        try:
            with open("/proc/self/task/%s/children" % t) as f:
                out += f.read().split()
        except OSError:
            pass
    return sorted(out)


def plain(x, depth=0):
    """A value of the package's own, by content as far as it is of plain types."""
    if isinstance(x, dict):
        return ("dict", tuple((plain(k, depth + 1), plain(v, depth + 1)) for k, v in x.items())) if depth < 6 else "deep"
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(plain(v, depth + 1) for v in x)) if depth < 6 else "deep"
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted(map(repr, x))))
    if isinstance(x, (str, bytes, int, float, bool, complex, type(None))):
        return (type(x).__name__, repr(x))
    return (type(x).__name__, id(x))


def package(prefix):
    """{name: content} of what the modules and classes of a package hold."""
    out = {}
    for name, mod in sorted(sys.modules.items()):
        if name != prefix and not name.startswith(prefix + ".") or mod is None:
            continue
        for k, v in vars(mod).items():
            # what is private may remember things
            if k.startswith("_") or isinstance(v, types.ModuleType):
                continue
            if isinstance(v, type) and v.__module__.split(".")[0] == prefix.split(".")[0]:
                for a, b in vars(v).items():
                    if a.startswith("_") or isinstance(b, (types.FunctionType, staticmethod, classmethod, property)):
                        continue
                    out["%s.%s.%s" % (name, k, a)] = plain(b)
            elif isinstance(v, types.FunctionType):
                out["%s.%s" % (name, k)] = id(v)
            else:
                out["%s.%s" % (name, k)] = plain(v)
    return out


def snapshot(prefix="trappy"):
    out = {
        "directory": os.getcwd(), "module path": list(sys.path), "arguments": list(sys.argv), "locale": locale.setlocale(locale.LC_ALL),
        "warning filters": [repr(f) for f in warnings.filters], "warning function": id(warnings.showwarning),
        "numpy errors": np.geterr(), "numpy printing": repr(np.get_printoptions()), "decimal": repr(decimal.getcontext()),
        "random": random.getstate(), "numpy random": [repr(x) for x in np.random.get_state()],
        "recursion": sys.getrecursionlimit(), "trace": repr(sys.gettrace()), "hooks": (id(sys.excepthook), id(sys.displayhook)),
        "stdout": (id(sys.stdout), id(sys.stderr), id(sys.stdin)), "collecting": (gc.isenabled(), gc.get_threshold()), "switching": sys.getswitchinterval(),
        "threads": sorted(t.name for t in threading.enumerate() if t.name != "stand-in"), "children": children(), "temporary": tempfile.gettempdir(),
        "logging": (logging.root.level, len(logging.root.handlers), logging.root.manager.disable), "backend": matplotlib.get_backend(), "pid": os.getpid(),
    }
    u = os.umask(0o22)
    os.umask(u)
    out["umask"] = u
    for k, v in os.environ.items():
        out["environment " + k] = v
    for s in ("SIGINT", "SIGTERM", "SIGHUP", "SIGPIPE", "SIGCHLD", "SIGALRM", "SIGUSR1", "SIGUSR2"):
        out["signal " + s] = repr(signal.getsignal(getattr(signal, s)))
    for k, v in options(pd._config.config._global_config).items():
        out["pandas " + k] = v
    for k in matplotlib.rcParams:
        out["matplotlib " + k] = repr(dict.__getitem__(matplotlib.rcParams, k))
    for k, v in package(prefix).items():
        out["package " + k] = v
    for k, v in descriptors().items():
        out["descriptor %d" % k] = v
    return out


def changes(a, b):
    return sorted((k, a.get(k, "-"), b.get(k, "-")) for k in set(a) | set(b) if k not in a or k not in b or a[k] != b[k])
