"""Runs of harness/stress.c."""
from . import build, netlib

WRAP = ["epoll_ctl", "epoll_wait", "pthread_mutex_lock", "pthread_mutex_unlock", "fopen"]


def binary(flavor="asan"):
    return build.harness("stress", flavor, wrap=WRAP)


def run_all(ctx, jobs, **kw):
    return netlib.run_all(ctx, jobs, binary=binary, **kw)
