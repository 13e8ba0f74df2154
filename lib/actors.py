"""Lock owners and waiters as threads of this process or as child processes, driven by one-line commands."""
import gc, os, pickle, queue, select, signal, struct, sys, threading, time, traceback, weakref
from . import shim
from .locks import INF


class UserError(Exception):
    pass


class UserStop(BaseException):
    pass


_kinds = [UserError, UserStop, KeyboardInterrupt, UserError, SystemExit, GeneratorExit]


def user_error():
    """The exceptions which leave a with-block, in turn."""
    _kinds.append(_kinds.pop(0))
    return _kinds[-1]


def take(rs, path, spec):
    """Obtains the lock described by spec; returns (stream, range given to the calls, manager)."""
    kind, shared, iv, form, timeout = spec["kind"], spec["shared"], spec["iv"], spec.get("form", "rb"), spec.get("timeout")
    kw = {} if timeout is None else {"timeout": timeout}
    mode = {"raw": "rb" if shared else "r+b", "buf": "rb" if shared else "r+b", "txt": "r" if shared else "r+",
            "adv": "RB" if shared else "RWB", "app": "rb" if shared else "ab"}[form]
    okw = {"buffering": 0} if form == "raw" else {}
    okw["thread_safe"] = spec.get("ts", True)
    if spec.get("userfd"):
        fd = os.open(path, os.O_RDONLY if shared else os.O_RDWR)
        okw["fileno"], okw["closefd"] = fd, True
        args = ()
        okw["mode"] = mode
    else:
        args = (path, mode)
    if kind == "open":
        return rs.rsopen(*args, locking=True, **okw, **kw), None
    st = rs.rsopen(*args, locking=False, **okw)
    ln = None if iv[1] == INF else iv[1] - iv[0]
    return st, st.lock_file(offset=iv[0], length=ln, shared=shared, **kw)


def give(st, mgr, spec, how):
    """Releases the lock; returns None or the stream still open."""
    iv = spec["iv"]
    ln = None if iv[1] == INF else iv[1] - iv[0]
    if how == "unlock" or (how.startswith("with") and mgr is None):
        if spec["kind"] == "open":
            st.unlock_file()
        else:
            st.unlock_file(offset=iv[0], length=ln)
        return st
    if how == "with":
        with mgr:
            pass
        return st
    if how == "with-exc":
        try:
            with mgr:
                raise user_error()
        except (UserError, UserStop, KeyboardInterrupt, SystemExit, GeneratorExit):
            pass
        return st
    if how == "close":
        st.close()
    elif how == "close-raw":
        getattr(st, "raw", st).close()
        try:
            st.close()
        except ValueError:
            pass
    elif how == "with-stream":
        with st:
            pass
    elif how == "with-stream-exc":
        try:
            with st:
                raise user_error()
        except (UserError, UserStop, KeyboardInterrupt, SystemExit, GeneratorExit):
            pass
    else:
        raise ValueError(how)
    return None


class Actor:
    """Serves commands: take / give / gc / die / quit. Events are put as (time, name, event, data)."""

    def __init__(self, rs, path, name, spec):
        self.rs, self.path, self.name, self.spec = rs, path, name, spec
        self.st = self.mgr = None

    def do(self, cmd, arg):
        if cmd == "take":
            self.st, self.mgr = take(self.rs, self.path, self.spec)
            return "granted"
        if cmd == "give":
            if arg == "gc":
                ref = weakref.ref(self.st)
                self.st = self.mgr = None
                while ref() is not None:
                    gc.collect()
                    time.sleep(0.0005)
            else:
                st, mgr = self.st, self.mgr
                self.st = self.mgr = None
                self.st = give(st, mgr, self.spec, arg)
            return "given"
        if cmd == "helper":
            if arg == "read":
                self.rs.read_from_file(self.path, binary=True)
            elif arg == "write":
                self.rs.write_to_file(self.path, b"Z" * 40)
            else:
                self.rs.append_to_file(self.path, b"z")
            return "granted"
        if cmd == "clean":
            if self.st is not None and not self.st.closed:
                self.st.close()
            self.st = self.mgr = None
            return "clean"
        raise ValueError(cmd)


class ThreadActor(Actor):
    def __init__(self, rs, path, name, spec, events):
        Actor.__init__(self, rs, path, name, spec)
        self.q, self.events = queue.Queue(), events
        self.th = threading.Thread(target=self.loop, daemon=True)
        self.th.start()

    def loop(self):
        while True:
            cmd, arg = self.q.get()
            if cmd == "quit":
                return
            try:
                self.events.put((time.monotonic(), self.name, self.do(cmd, arg), None))
            except BaseException as e:
                self.events.put((time.monotonic(), self.name, "error", traceback.format_exc()))
                e = None

    def send(self, cmd, arg=None):
        self.q.put((cmd, arg))

    def quit(self):
        self.send("quit")

    def join(self, t):
        self.th.join(t)

    def kill(self):
        pass


class ProcActor(Actor):
    def __init__(self, rs, path, name, spec, events, seed=0):
        Actor.__init__(self, rs, path, name, spec)
        self.events = events
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                while True:
                    head = os.read(r1, 4)
                    if len(head) < 4:
                        os._exit(0)
                    cmd, arg = pickle.loads(os.read(r1, struct.unpack("<I", head)[0]))
                    if cmd == "die":
                        if arg == "kill":
                            os.kill(os.getpid(), signal.SIGKILL)
                        os._exit(3)
                    if cmd == "quit":
                        os._exit(0)
                    try:
                        ev = (time.monotonic(), name, self.do(cmd, arg), None)
                    except BaseException:
                        ev = (time.monotonic(), name, "error", traceback.format_exc())
                    data = pickle.dumps(ev)
                    os.write(w2, struct.pack("<I", len(data)) + data)
            finally:
                os._exit(1)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2
        self.dead = False

    def listen(self):
        self.th = threading.Thread(target=self._listen, daemon=True)
        self.th.start()

    def _listen(self):
        while True:
            try:
                head = os.read(self.r, 4)
                if len(head) < 4:
                    break
                n = struct.unpack("<I", head)[0]
                data = b""
                while len(data) < n:
                    data += os.read(self.r, n - len(data))
            except OSError:
                break
            self.events.put(pickle.loads(data))

    def send(self, cmd, arg=None):
        data = pickle.dumps((cmd, arg))
        try:
            os.write(self.w, struct.pack("<I", len(data)) + data)
        except OSError:
            pass

    def quit(self):
        self.send("quit")

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass

    def join(self, t):
        end = time.monotonic() + t
        while not self.dead:
            p, _ = os.waitpid(self.pid, os.WNOHANG)
            if p:
                self.dead = True
                break
            if time.monotonic() > end:
                self.kill()
                os.waitpid(self.pid, 0)
                self.dead = True
                break
            time.sleep(0.001)
        self.th.join(5)
        os.close(self.w)
        os.close(self.r)
