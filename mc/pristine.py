"""Evaluates a function in processes in which the code under test was imported, but never used.

A server process is forked before the first call of the code under test; for every request it forks a
child that evaluates the function and ends.  Nothing an evaluation leaves behind (caches, altered defaults)
can therefore reach another one.
"""
import os
import pickle
import select
import signal
import socket
import struct


def _send(sock, obj):
    b = pickle.dumps(obj)
    sock.sendall(struct.pack('<Q', len(b)) + b)


def _recv(sock):
    def exactly(n):
        out = b''
        while len(out) < n:
            part = sock.recv(n - len(out))
            if not part:
                raise EOFError('the pristine process died')
            out += part
        return out

    return pickle.loads(exactly(struct.unpack('<Q', exactly(8))[0]))


class Pristine:
    def __init__(self, func):
        self.address = '\0mc-%d-%s' % (os.getpid(), os.urandom(6).hex())
        server = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        server.bind(self.address)
        server.listen(64)
        # the server ends when all processes holding the other end of this pipe have ended
        alive, self._alive = os.pipe()
        if os.fork() == 0:
            try:
                os.close(self._alive)
                self._serve(server, alive, func)
            finally:
                os._exit(0)
        os.close(alive)
        server.close()

    @staticmethod
    def _serve(server, alive, func):
        signal.signal(signal.SIGCHLD, signal.SIG_IGN)
        null = os.open(os.devnull, os.O_RDWR)
        for fd in (0, 1, 2):
            os.dup2(null, fd)
        while True:
            ready = select.select([server, alive], [], [])[0]
            if alive in ready:
                return
            sock = server.accept()[0]
            if os.fork() == 0:
                try:
                    args = _recv(sock)
                    try:
                        out = (True, func(*args))
                    except Exception as e:
                        out = (False, '%s: %s' % (type(e).__name__, e))
                    _send(sock, out)
                finally:
                    os._exit(0)
            sock.close()

    def __call__(self, *args):
        """(True, result) or (False, message of the exception)"""
        sock = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        try:
            sock.connect(self.address)
            _send(sock, args)
            return _recv(sock)
        finally:
            sock.close()
