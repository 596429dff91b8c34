"""C41 picking points."""

BOUNDS = ("1..3 points asked for, every script of up to 5 selections of 0..3 points (one of up to 6) at any coordinates, and every sequence of "
          "key presses, mouse clicks and time-outs in between")


def session(h, npts=2, nsel=3, most=2, least=0, initial=False, ask=False, nwait=2, forever=False):
    """A script of user actions against a plain account of what was picked."""
    ax = h.plt.subplots()[1]
    log = {"sel": [], "wait": [], "events": []}

    def ginput():
        i = len(log["sel"])
        if i >= nsel:
            h.stop()
        pts = [(h.real(f"x{i}_{j}", -1000, 1000), h.real(f"y{i}_{j}", -1000, 1000)) for j in range(h.choice(f"n{i}", range(least, most + 1)))]
        log["sel"].append(pts)
        log["events"].append(("sel", pts))
        return list(pts)

    def press(timeout):
        blocking = timeout is None or timeout <= 0
        i = len(log["wait"])
        if i >= nwait * nsel + 2:
            h.stop()
        # a blocking call ends with a key or a click; a timed one may also end with nothing
        r = h.choice(f"w{i}", [True, False] if blocking else [None, True, False])
        log["wait"].append(r)
        log["events"].append(("block" if blocking else "timed", r))
        return r

    h.plt.ginput_script, h.plt.press_script = ginput, press
    kw = dict(initial_adjustment=initial, npts=h.np.inf if forever else npts, ask_to_continue=ask)
    if initial and h.flag("msg"):
        kw["initial_adjustment_message"] = "move"
    if ask and h.flag("msg2"):
        kw["ask_to_continue_message"] = "on"
    got = h.mod("interact").ginput_session(ax, **kw)
    h.check(isinstance(got, tuple) and len(got) == 2, "abscissae and ordinates are returned")
    xs, ys = got
    want = [s[-1] for s in log["sel"] if s]
    h.check_eq(list(xs), [p[0] for p in want], "the last point of every selection, in order (x)")
    h.check_eq(list(ys), [p[1] for p in want], "the last point of every selection, in order (y)")

    # the course of the session, as documented
    ev = list(log["events"])
    if initial:
        while ev:
            k, r = ev.pop(0)
            h.check(k == "block", "nothing is picked before the view is adjusted")
            if r:
                break
    n, over = 0, False
    while ev:
        h.check(not over, "the session is over after the last point or when left")
        k, pts = ev.pop(0)
        h.check(k == "sel", "points are asked for until there are enough")
        if not pts:
            continue
        n += 1
        if ask:
            while ev:
                k, r = ev.pop(0)
                h.check(k == "block", "the session waits for a key after every point")
                if r:
                    break
        if not ev or ev[0][0] == "sel":
            h.check(not forever and n == npts and not ev, "the session can be left after every point")
            over = True
            continue
        k, r = ev.pop(0)
        h.check(k == "timed", "leaving does not wait for the user")
        over = bool(r) or (not forever and n == npts)
    h.check(over, "the session lasts until enough points are picked or it is left")
    h.check(len(ax.lines) == len(want), "every point is marked once")
    for ln, (x, y) in zip(ax.lines, want):
        h.check_eq([ln.get_xdata(), ln.get_ydata()], [x, y], "points are marked where picked")
    h.check(sum(bool(t.visible) for t in ax.texts) <= 1, "messages are removed")


HARNESSES = [
    (session, [dict(), dict(npts=1, initial=True, nsel=2), dict(npts=2, ask=True, nsel=2, most=1, nwait=3), dict(most=3, npts=1, nsel=2),
               dict(forever=True, most=1), dict(npts=3, nsel=4, most=1), dict(npts=1, nsel=1, most=6),
               dict(npts=12, nsel=12, least=1, most=1, nwait=1)],
     [dict(npts=2, nsel=4), dict(npts=3, nsel=3, ask=True, initial=True, most=1), dict(forever=True, nsel=5, most=1), dict(forever=True, nsel=12, least=1, most=1, nwait=1)]),
]
