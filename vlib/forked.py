"""Running something in a forked child that may be killed."""
import os, pickle, resource, signal, time, traceback


def run(fn, path, cpu=150, wall=300):
    """Run fn() in a child. Returns ('ok', value), ('raised', text), ('exit', code), ('signal', number) or ('timeout', None).
    The value travels through the file path."""
    if os.path.exists(path):
        os.remove(path)
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            signal.setitimer(signal.ITIMER_PROF, 0)
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            try:
                out = ("ok", fn())
            except BaseException as e:
                out = ("raised", "".join(traceback.format_exception(type(e), e, e.__traceback__)))
            resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
            with open(path, "wb") as f:
                pickle.dump(out, f)
            code = 71
        finally:
            os._exit(code)
    t0 = time.time()
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        if time.time() - t0 > wall:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            return "timeout", None
        time.sleep(.001)
    if os.WIFSIGNALED(st):
        return "signal", os.WTERMSIG(st)
    code = os.WEXITSTATUS(st)
    if code == 71:
        with open(path, "rb") as f:
            return pickle.load(f)
    return "exit", code
