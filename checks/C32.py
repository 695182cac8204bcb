"""C32: threads, locks, conditions and pipes between threads."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "vlib"))
from vp import *


def body(c):
    fs = ["threads." + f for f in "start wait thr_detach mtx_new mtx_free lock unlock cnd_new cnd_free unlock_wait_lock wake_one wake_all newpipe freepipe pread pclose pwrite".split()]
    wrap = ["pthread_" + f for f in "create join detach mutex_init mutex_destroy mutex_lock mutex_trylock mutex_unlock cond_init cond_destroy cond_wait cond_signal cond_broadcast".split()]
    exe = lib_driver("threads", ["os/threads"], fs, "threads.c", san=False, wrap=wrap, lib_flags=["-fsanitize=thread"])
    c.harness("schedules", exe, shards=NCPU, timeout=850)
    for p in c.parts.values():
        c.notes.append("%d complete schedules explored" % p["traces"])


if __name__ == "__main__":
    main("C32", body, ["sequentially consistent memory; preemptions, spurious wake-ups, threads and items bounded as stated", "nobody writes to a pipe that is closed"])
