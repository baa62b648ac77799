"""Programs for the thread pool (C13, C14)."""


def O(s):
    """'post1 wait' -> ops"""
    r = []
    for w in s.split():
        name = w.rstrip("0123456789")
        num = w[len(name):]
        o = {"o": name}
        if name == "see":
            o["ids"] = [int(x) for x in num]
        elif num:
            o["id"] = int(num)
        r.append(o)
    return r


def prog(n, pre, threads, post, tasks=None, **kw):
    ids = set()

    def scan(ops):
        for o in ops:
            if o["o"] in ("post", "async"):
                ids.add(o["id"])

    pre, post = O("mk " + pre), O(post)
    threads = [O(t) for t in threads]
    T = {}
    for k, v in (tasks or {}).items():
        d = {"ops": O(v.get("ops", "")), "dops": O(v.get("dops", "")), "big": v.get("big", 0)}
        T[str(k)] = d
        scan(d["ops"])
        scan(d["dops"])
    scan(pre)
    scan(post)
    for t in threads:
        scan(t)
    for i in ids:
        T.setdefault(str(i), {"ops": [], "dops": [], "big": i % 2})
    nattach = sum(1 for t in threads for o in t if o["o"] == "attach")
    p = {"n": n, "pre": pre, "threads": threads, "post": post, "tasks": T, "single": 1 if n + nattach == 1 else 0}
    p.update(kw)
    return p


def c13(thorough):
    P = []
    A = P.append
    # several posters, wait drains
    A(prog(1, "", ["post1 post2", "post3"], "wait see123 del"))
    A(prog(2, "", ["post1 post2", "post3"], "wait see123 del"))
    A(prog(1, "post1 post2 post3 post4", [], "wait see1234 del"))
    A(prog(2, "post1 post2", ["post3"], "wait see123 del"))
    A(prog(3, "post1 post2 post3", [], "wait see123 del", heavy=1))
    A(prog(1, "", ["post1", "post2", "post3"], "wait see123 del"))
    # posting races with wait: accepted => run, refused => destroyed
    A(prog(1, "post1", ["wait see1", "post2"], "del"))
    A(prog(2, "post1", ["wait see1", "post2 post3"], "del"))
    A(prog(1, "", ["wait", "post1", "post2"], "del"))
    # tasks which post more tasks
    A(prog(1, "post1", [], "wait see1 del", {1: {"ops": "post2"}, 2: {"ops": "post3"}}))
    A(prog(2, "post1", ["post4"], "wait see14 del", {1: {"ops": "post2 post3"}}, heavy=1))
    A(prog(1, "post1", ["wait"], "see1 del", {1: {"ops": "post2 post3"}}))
    # rendezvous of tasks: two workers really run in parallel
    A(prog(2, "post1 post2", [], "wait see12 del", {1: {"ops": "open0 await1"}, 2: {"ops": "await0 open1"}}))
    A(prog(2, "post1 post2 post3", [], "wait see123 del", {1: {"ops": "await0"}, 2: {"ops": "open0"}}))
    # a sleeping worker has to be woken while the other one is busy
    A(prog(2, "post1", ["post2 open1"], "wait see12 del", {1: {"ops": "await1 await2"}, 2: {"ops": "open2"}}))
    A(prog(2, "post1", ["post2", "post3"], "wait see123 del", {1: {"ops": "await0"}, 2: {"ops": "open0"}, 3: {}}))
    A(prog(3, "", ["post1 post2 post3"], "wait see123 del", {1: {"ops": "await0"}, 2: {"ops": "await1"}, 3: {"ops": "open0 open1"}}, heavy=1))
    # async results
    A(prog(1, "async1", ["get1"], "wait see1 del"))
    A(prog(2, "", ["async1 get1", "async2 get2"], "wait see12 del"))
    A(prog(1, "", ["async1 get1 async2 get2"], "wait see12 del"))
    # attached threads
    A(prog(1, "post1 post2", ["attach", "post3 wait see123"], "del"))
    A(prog(0, "post1 post2 post3", ["attach", "wait"], "see123 del"))
    A(prog(1, "", ["attach", "post1 post2 wait see12"], "del"))
    A(prog(1, "post1", ["attach", "await0 post3 wait see13"], "del", {1: {"ops": "post2 await1"}, 2: {"ops": "open0 open1"}}))
    A(prog(0, "", ["attach", "attach", "post1 post2 wait"], "see12 del"))
    # the finished function object is destroyed without waiting for the next task
    A(prog(1, "post1", ["await0"], "wait see1 del", {1: {"dops": "open0"}}))
    A(prog(1, "post1 post2", ["await0"], "wait see12 del", {2: {"dops": "open0", "big": 1}}))
    if thorough:
        for n in (1, 2, 3):
            A(prog(n, "", ["post1 post2", "post3 post4", "post5"], "wait see12345 del"))
            A(prog(n, "post1", ["post2 wait", "post3 post4"], "see12 del", {1: {"ops": "post5"}, 5: {"ops": "post6"}}))
            A(prog(n, "async1", ["async2 get2 get1", "post3"], "wait see123 del"))
            A(prog(n, "post1", ["attach", "post2 post3 wait see123"], "del"))
            A(prog(n, "post1", ["attach", "attach", "post2 wait see12"], "del", {1: {"ops": "post3"}}))
    return P


def c14(thorough):
    P = []
    A = P.append
    # stop with queued and running tasks
    A(prog(1, "post1 post2 post3", ["stop"], "wait del"))
    A(prog(1, "post1 post2 post3", ["stop", "post4"], "del"))
    A(prog(2, "post1 post2 post3", ["stop"], "del", heavy=1))
    A(prog(1, "post1", ["await0 stop open1"], "wait del", {1: {"ops": "open0 post2 post3 await1"}}))
    A(prog(1, "post1", [], "del"))
    A(prog(1, "", [], "del"))
    A(prog(0, "", [], "del"))
    A(prog(0, "post1 async2", [], "del get2"))
    A(prog(0, "post1", [], "wait del"))
    A(prog(2, "", ["stop", "post1"], "wait del"))
    A(prog(2, "", ["stop", "stop"], "wait wait del"))
    A(prog(1, "", [], "stop stop wait wait stop del"))
    # futures of tasks which never run report broken_promise
    A(prog(1, "async1 async2", ["stop del", "get1"], "get2"))
    A(prog(1, "", ["stop", "async1"], "del get1"))
    A(prog(1, "stop async1", ["get1"], "del"))
    A(prog(1, "wait async1", ["get1"], "del"))
    A(prog(1, "async1", ["wait", "async2"], "get1 del get2"))
    # cancelled tasks
    A(prog(1, "async1", ["dropf1", "post2"], "wait see2 del"))
    A(prog(1, "async1 async2", ["dropf2 wait"], "del get1"))
    # a task stops / posts to its own pool
    A(prog(1, "post1 post2", [], "wait del", {1: {"ops": "stop post3"}}))
    A(prog(2, "post1 post2 post3", [], "del", {1: {"ops": "stop"}}, heavy=1))
    A(prog(2, "post1 post2", [], "wait del", {1: {"ops": "post3 stop"}, 2: {"ops": "post4"}}, heavy=1))
    # destructors of function objects post to the pool
    A(prog(1, "post1 post2", [], "wait del", {1: {"dops": "post3"}}))
    A(prog(1, "post1", ["post2"], "wait del", {1: {"dops": "post3"}, 2: {"dops": "post4"}}))
    A(prog(1, "post1 post2", ["stop"], "wait del", {1: {"dops": "post3"}, 2: {"dops": "post4", "big": 1}}))
    A(prog(2, "post1 post2", ["wait"], "del", {1: {"dops": "post3"}, 2: {"dops": "post4"}}, heavy=1))
    A(prog(0, "post1 post2", [], "del", {1: {"dops": "post3"}, 2: {"dops": "post4"}}))
    A(prog(1, "stop post1", [], "del", {1: {"dops": "post2"}}))
    A(prog(1, "wait post1", ["post3"], "del", {1: {"dops": "post2"}}))
    A(prog(1, "async1 async2", ["dropf1", "dropf2"], "del", {1: {"dops": "post3"}, 2: {"dops": "post4"}}))
    # function object of the last task completes something another thread waits for
    A(prog(1, "post1", ["await0 stop"], "wait del", {1: {"dops": "open0"}}))
    A(prog(1, "post1", ["await0"], "wait del", {1: {"dops": "open0 post2"}}))
    # attached threads leave
    A(prog(1, "post1", ["attach", "stop"], "wait del"))
    A(prog(0, "post1 post2", ["attach", "stop"], "del"))
    A(prog(2, "", ["attach", "wait"], "del"))
    A(prog(1, "stop", ["attach"], "wait del"))
    A(prog(0, "wait", ["attach", "attach"], "del"))
    A(prog(1, "post1", ["attach", "attach", "stop"], "del"))
    A(prog(0, "post1 post2", ["attach", "attach", "await0 wait"], "del", {1: {"ops": "open0"}}))
    if thorough:
        for n in (1, 2, 3):
            A(prog(n, "post1 post2 post3", ["stop", "post4", "post5"], "wait del"))
            A(prog(n, "async1 async2 async3", ["stop", "dropf2"], "del get1 get3"))
            A(prog(n, "post1 post2", ["attach", "stop", "post3"], "del", {1: {"ops": "post4"}, 2: {"dops": "post5"}}))
            A(prog(n, "post1 post2 post3", ["attach", "wait"], "del", {1: {"dops": "post4"}, 3: {"ops": "post5", "dops": "post6"}}))
    return P
