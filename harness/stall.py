"""How long this machine did not let the process go on, where real time is judged."""
import threading
import time

STEP = .02


class Stall:
    def __init__(self):
        self.worst = 0.0
        t = threading.Thread(target=self.watch, daemon=True, name='vp-stall')
        t.start()

    def watch(self):
        t, w = time.monotonic(), time.time()
        while True:
            time.sleep(STEP)
            t2, w2 = time.monotonic(), time.time()
            self.worst = max(self.worst, t2 - t - STEP, w2 - w - STEP)
            t, w = t2, w2

    def reset(self):
        self.worst = 0.0


def steady(f, limit):
    """f(), again if the machine stood still for longer than limit seconds; None in the end."""
    global _s
    if _s is None:
        _s = Stall()
    for _ in range(3):
        _s.reset()
        r = f()
        time.sleep(STEP * 1.5)
        if _s.worst <= limit:
            return r
    return None


_s = None
