"""File-system audit: records what the interpreter opens, removes and renames while switched on."""
import os, sys

_on = False
events = []
_hooked = False
NAMES = {"open", "os.remove", "os.rename", "os.mkdir", "os.rmdir", "shutil.rmtree", "os.link", "os.symlink", "os.truncate", "os.chmod", "os.utime",
         "os.listdir", "os.scandir", "subprocess.Popen", "tempfile.mkstemp", "tempfile.mkdtemp"}
callback = None


def _hook(name, args):
    if not _on or name not in NAMES:
        return
    if name == "open":
        path, mode, flags = args
        if isinstance(path, int):
            return
        w = bool((flags or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)) or (isinstance(mode, str) and any(c in mode for c in "wax+"))
        e = ("write" if w else "read", os.fsdecode(path))
    elif name in ("os.rename", "os.link", "os.symlink"):
        e = (name[3:], os.fsdecode(args[0]), os.fsdecode(args[1]))
    elif name == "subprocess.Popen":
        e = ("exec", str(args[0]), [os.fsdecode(a) for a in args[1]] if not isinstance(args[1], (str, bytes)) else [args[1]])
    else:
        e = (name.split(".")[1], os.fsdecode(args[0]) if args and isinstance(args[0], (str, bytes, os.PathLike)) else str(args[:1]))
    events.append(e)
    if callback:
        callback(len(events), e)


def start(cb=None):
    global _on, _hooked, callback
    if not _hooked:
        sys.addaudithook(_hook)
        _hooked = True
    del events[:]
    callback = cb
    _on = True


def stop():
    global _on, callback
    _on = False
    callback = None
    return list(events)
