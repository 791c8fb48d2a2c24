"""Processes interleaved at chosen points."""
import os, select, threading, time

class Proc:
    """a process which stops where it is told to (see SIM_PAUSE in the shim), so that several can be interleaved
    as one likes: only one of them runs at a time"""
    def __init__(self, w, n, fn):
        self.n = n
        self.seg = 0        # number of pauses it was resumed from
        self.base = w.root + '/tr/pause%d' % n
        for s in '.a', '.b':
            os.mkfifo(self.base + s)
            os.chmod(self.base + s, 0o666)
        self.a = os.open(self.base + '.a', os.O_RDONLY | os.O_NONBLOCK)
        self.run = self.exc = None
        self.pid = 0
        self.why = ''
        def go():
            try:
                self.run = fn(env=dict(SIM_PAUSE=self.base))
            except BaseException as e:
                self.exc = e
        self.thread = threading.Thread(target=go, daemon=True)
        self.thread.start()
    def wait(self):
        """until it pauses (True) or has ended (False)"""
        end = time.time() + 50
        while time.time() < end:
            if select.select([self.a], [], [], 0.002)[0]:
                try:
                    b = os.read(self.a, 100)
                except BlockingIOError:
                    continue
                if b:
                    self.pid, self.why = int(b.split()[0]), b.split()[1].decode()
                    return True
            if not self.thread.is_alive():
                return False
            self.thread.join(0.001)
        return False
    def resume(self):
        end = time.time() + 20
        while time.time() < end:
            try:
                fd = os.open(self.base + '.b', os.O_WRONLY | os.O_NONBLOCK)
                os.close(fd)
                # (until it has read the end of the file, the next pause must not start)
                return
            except OSError:
                if not self.thread.is_alive():
                    return
                time.sleep(0.001)
    def close(self):
        os.close(self.a)
