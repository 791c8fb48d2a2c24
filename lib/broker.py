"""Stands in for set-id exec where the kernel ignores set-id bits (no_new_privs): see sim/setidstub.c"""
import os, socket, struct, subprocess, threading

def nnp():
    return any(l.startswith('NoNewPrivs') and l.split()[1] == '1' for l in open('/proc/self/status'))

class Broker:
    """runs `real` as root (effective ids) for whoever executes the stub at `path`"""
    def __init__(self, path, real, setids, uid):
        self.real, self.setids, self.uid = real, setids, uid
        self.s = socket.socket(socket.AF_UNIX)
        self.s.bind(path + '.sock')
        os.chmod(path + '.sock', 0o666)
        self.s.listen(50)
        threading.Thread(target=self.loop, daemon=True).start()
    def loop(self):
        while True:
            try:
                c, _ = self.s.accept()
            except OSError:
                return
            threading.Thread(target=self.one, args=(c,), daemon=True).start()
    def one(self, c):
        fds = []
        try:
            data, fds, _, _ = socket.recv_fds(c, 1 << 18, 3)
            n = struct.unpack('I', data[:4])[0]
            while len(data) < n + 4:
                x = c.recv(1 << 18)
                if not x:
                    return
                data += x
            a = data[4:].split(b'\0')[:-1]
            ru, rg, eg, gs, cwd, argc = a[:6]
            argc = int(argc)
            args = a[6:6 + argc]
            env = dict(x.split(b'=', 1) for x in a[6 + argc:])
            p = subprocess.Popen([self.setids, ru, str(self.uid), rg, eg, gs, cwd, self.real] + args[1:], stdin=fds[0], stdout=fds[1], stderr=fds[2], env=env)
            while fds:
                os.close(fds.pop())
            st = p.wait()
            c.send(bytes([st if st >= 0 else 128 - st & 255]))
        except OSError:
            pass
        finally:
            for f in fds:
                os.close(f)
            c.close()
    def close(self):
        try:
            self.s.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.s.close()
