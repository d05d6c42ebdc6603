"""A process that has imported enolib but never used it. Every request is answered by a fork of it, so that the answer
cannot depend on anything done before."""
import gc
import os
import pickle
import signal
import struct


def _send(fd, data):
    data = struct.pack('>Q', len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def _receive(fd):
    def exactly(n):
        out = b''
        while len(out) < n:
            piece = os.read(fd, n - len(out))
            if not piece:
                return None
            out += piece
        return out
    head = exactly(8)
    return None if head is None else exactly(struct.unpack('>Q', head)[0])


class Pristine:
    def __init__(self, function):
        """function: picklable request -> picklable answer"""
        ask_r, ask_w = os.pipe()
        tell_r, tell_w = os.pipe()
        self.pid = os.fork()
        if not self.pid:
            os.close(ask_w)
            os.close(tell_r)
            try:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
                self.serve(function, ask_r, tell_w)
            finally:
                os._exit(0)
        os.close(ask_r)
        os.close(tell_w)
        self.ask_w, self.tell_r = ask_w, tell_r

    @staticmethod
    def serve(function, ask_r, tell_w):
        gc.collect()
        gc.freeze()
        while True:
            request = _receive(ask_r)
            if request is None:
                return
            pid = os.fork()
            if not pid:
                try:
                    signal.signal(signal.SIGALRM, signal.SIG_DFL)
                    signal.alarm(60)
                    answer = pickle.dumps(('answer', function(pickle.loads(request))))
                except BaseException as e:
                    answer = pickle.dumps(('broke', f"{type(e).__name__}: {str(e)[:500]}"))
                _send(tell_w, answer)
                os._exit(0)
            _, status = os.waitpid(pid, 0)
            if status:
                _send(tell_w, pickle.dumps(('broke', f"ended with status {status}")))

    def __call__(self, request):
        _send(self.ask_w, pickle.dumps(request))
        answer = _receive(self.tell_r)
        if answer is None:
            raise RuntimeError('the pristine process is gone')
        return pickle.loads(answer)

    def close(self):
        os.close(self.ask_w)
        os.close(self.tell_r)
        try:
            os.waitpid(self.pid, 0)
        except ChildProcessError:
            pass
