spawned = []
on_sleep = []


def sleep(seconds=0):
    for f in list(on_sleep):
        f(seconds)


def spawn(function, *args, **kwargs):
    spawned.append((function, args, kwargs))
