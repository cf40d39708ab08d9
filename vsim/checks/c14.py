"""C14: frame synchronisation against the instants at which the simulated frames arrive."""
import numpy as np

from vsim import harness, linksim


class C14(harness.Check):
    id = "C14"
    technique = "deterministic simulation of the acquisition of a pilot-framed signal: random instants, mode orders, rotations, skews, bursts and signal loss, against the instants that were simulated"
    runs = {"quick": 2000, "thorough": 20000}
    minimise_budget = 60
    rule = ("a run transmits 1-3 frames (fresh or repeated payload) on 1-3 modes over a link that delays each mode (together, skewed or independently), permutes the modes, rotates them by quarter turns, couples them, shifts the frequency, "
            "adds noise, bursts or loss of signal, and captures from an arbitrary instant with an arbitrary length; synchronised once and again; compared: frame position per mode, mode order, the frame that each mode is aligned to, "
            "payload after pilot equalisation and carrier recovery, rejection of captures without a frame; non-trivial if a mode was delayed")
    state_measure = "distinct (layout, order, delays, link)"
    real = ["qampy.signals SignalWithPilots.sync2frame, corr_foe; qampy.core.pilotbased_receiver.frame_sync, ber_functions.find_sequence_offset_complex, phaserecovery; qampy.equalisation pilot_equaliser with the compiled kernels (one thread); pilot_cpe"]
    stubs = ["the link"]
    assumptions = ["one, two or four samples per symbol, pilot sequences of 256 or 512 QPSK symbols, 30 dB or more", "a synchronisation that reports success is held to the right position; success itself is demanded for payloads with amplitude levels (the search looks for constant modulus), pilot sequences of 512 symbols, modes that arrive together or are not coupled, "
                   "delays of a whole number of symbols and frames that do not start within the first pilot sequence length of the capture", "payload is held to 10 % (16-QAM) or 30 % (64-QAM) errors at 35 dB or more: a wrong position, mode or frame gives more than 90 %"]
    required_probes = ["success", "payload", "mode order", "cyclic order", "rotation", "equal delays", "skew", "independent delays", "half-symbol delay", "constant-modulus payload", "coupling", "frequency offset", "fresh payload", "too short", "shortest capture",
                       "start of capture", "synchronised again", "burst", "loss of signal", "dead port", "negative position", "single precision", "rejected method", "os 1", "os 2", "os 4", "payload os 1", "payload os 2", "payload os 4"]

    def gen(self, rng, tier, index):
        n = rng.choice([1, 2, 2, 3, 3])
        ps, pr = rng.choice([256, 512, 512]), rng.choice([16, 32])
        F = ps + pr * rng.randint(20, 80)
        sc = {"n": n, "ps": ps, "pr": pr, "F": F, "M": rng.choice([16, 16, 16, 64, 4]), "nframes": rng.choice([1, 2, 3]), "seed": rng.getrandbits(20), "order": rng.sample(range(n), n), "rot": [rng.randrange(4) for _ in range(n)],
              "snr": rng.choice([30, 35, 35, 40, 50]), "foe": rng.choice([0, 0, 1e-4, -1e-3, 3e-3, -1e-2]), "theta": rng.choice([0, 0, .1, .2]), "Ntaps": rng.choice([9, 13, 17, 17, 21]), "more": rng.choice([0, 0, 2, 4, 8]), "fresh": rng.random() < .5,
              "dtype": rng.choice(["complex128"] * 4 + ["complex64"]), "again": rng.random() < .25, "taps": rng.random() < .3}
        OS = sc["os"] = rng.choice([2, 2, 2, 2, 2, 2, 1, 4])
        if OS == 4:
            sc.update(more=rng.choice([0, 4, 8, 12]), Ntaps=rng.choice([17, 17, 21, 25]))
        P = F * OS
        x = rng.random()
        d = rng.randrange(0, 2 * ps * OS, OS) if x < .25 else rng.randrange(0, 20 * OS, OS) if x < .35 else rng.randrange(P - 40 * OS, P, OS) if x < .4 else OS * rng.randrange(F)
        x = rng.random()
        if x < .45:
            D = [d] * n
        elif x < .7:
            D = [d] + [d + OS * rng.randint(-20, 20) for _ in range(n - 1)]
        else:
            D = [d] + [OS * rng.randrange(F) for _ in range(n - 1)]
        if rng.random() < .1 and OS > 1:
            D = [k + rng.randrange(1, OS) for k in D]
        sc["delay"] = [k % P for k in D]
        x = rng.random()
        sc["short"] = None
        if x < .1:
            sc["short"] = rng.randrange(P, (F + 2 * ps) * OS)
        sc["L"] = (F + 2 * ps) * OS + rng.choice([0, 1, rng.randrange(P)]) if x < .3 else 3 * P + 64
        sc["event"] = None
        if rng.random() < .25:
            a = rng.randrange(sc["L"])
            sc["event"] = [rng.choice(["burst", "burst", "loss of signal", "dead port"]), a, a + rng.choice([20, 100, 1500])]
        sc["method"] = rng.choice(["cma", "cma", "cma", "mcma"])
        return sc

    def run(self, sc, res):
        import warnings
        warnings.simplefilter("ignore")
        np.seterr(all="ignore")
        from qampy import signals, equalisation as eq, phaserec
        from qampy.core import pilotbased_receiver as pr
        n, F, ps, seed, Nt = sc["n"], sc["F"], sc["ps"], sc["seed"], sc["Ntaps"]
        OS = sc.get("os", 2)
        P = F * OS
        r = np.random.RandomState(seed)
        dt = np.dtype(sc["dtype"]).type
        s = signals.SignalWithPilots(sc["M"], F, ps, sc["pr"], nframes=sc["nframes"], nmodes=n, fb=20e9, seed=seed, repeat_data=not sc["fresh"], repeat_pilots=True, dtype=dt)
        x = s.resample(OS * s.fb, beta=.1, renormalise=True)
        L = sc["short"] or sc["L"]
        a = np.array(x).astype(complex)[sc["order"]] * 1j ** np.array(sc["rot"])[:, None]
        T = a.shape[1]
        assert T == P * sc["nframes"]
        D = np.array(sc["delay"])
        a = np.array([q[(np.arange(L) - d) % T] for q, d in zip(a, D)])
        if n > 1 and sc["theta"]:
            a = (np.eye(n) * np.cos(sc["theta"]) + (1 - np.eye(n)) * np.sin(sc["theta"]) / (n - 1) * 1j).dot(a)
        a = a * np.exp(2j * np.pi * sc["foe"] / OS * np.arange(L))
        hit = False
        if sc["event"] and sc["event"][1] < L:
            what, i, j = sc["event"]
            k = a[:, i:j].shape
            if what == "dead port":
                a[i % n] = 0
            else:
                a[:, i:j] = 0 if what == "loss of signal" else r.randn(*k) + 1j * r.randn(*k)
            hit = True
            res.stats["fault:" + what] += 1
            res.stats["probe:" + what] += 1
        a = a + 10 ** (-sc["snr"] / 20) / np.sqrt(2) * (r.randn(*a.shape) + 1j * r.randn(*a.shape)) * (np.abs(a) > 0)
        y = x.recreate_from_np_array(a.astype(dt))
        where = np.empty(n, int)
        where[sc["order"]] = np.arange(n)       # the port on which each transmitted mode arrives
        res.nontrivial = bool(D.any())
        res.stats["probe:os %d" % OS] += 1
        res.state(n, F, ps, tuple(sc["order"]), tuple(sc["delay"]), sc["foe"], sc["theta"], L)
        for k, c in (("mode order", sc["order"] != list(range(n))), ("cyclic order", sc["order"] in ([1, 2, 0], [2, 0, 1])), ("rotation", any(sc["rot"])), ("equal delays", n > 1 and len(set(D)) == 1), ("half-symbol delay", np.any(D % OS)),
                     ("skew", 0 < np.ptp(D) <= 40 * OS), ("independent delays", np.ptp(D) > 40 * OS), ("constant-modulus payload", sc["M"] == 4), ("coupling", n > 1 and sc["theta"] > 0), ("frequency offset", sc["foe"] != 0),
                     ("fresh payload", sc["fresh"] and sc["nframes"] > 1), ("shortest capture", not sc["short"] and L < 2 * P), ("start of capture", D.min() < ps * OS), ("negative position", D.min() < Nt // 2), ("single precision", dt == np.complex64)):
            res.stats["probe:" + k] += bool(c)
        for k in ("mode order", "rotation", "coupling", "frequency offset"):
            res.stats["fault:" + k] += {"mode order": sc["order"] != list(range(n)), "rotation": any(sc["rot"]), "coupling": n > 1 and sc["theta"] > 0, "frequency offset": sc["foe"] != 0}[k]
        res.stats["fault:delay"] += int(np.count_nonzero(D))
        who = "%d modes at %d samples per symbol in order %s, delays %s, frames of %d symbols (%d pilots), capture of %d samples, %d taps" % (n, OS, sc["order"], D.tolist(), F, ps, L, Nt)
        kw = {"Ntaps": Nt, "mu": 1e-3, "method": sc["method"]}
        if sc["short"]:
            before = np.array(y)
            res.stats["probe:too short"] += 1
            res.stats["fault:capture too short"] += 1
            try:
                y.sync2frame(**kw)
            except AssertionError:
                if not np.array_equal(before, y):
                    res.fail("a rejected capture changes", who, key="reject")
                return
            res.fail("a capture that is too short is synchronised", who, key="short")
            return
        if seed % 7 == 0:
            before = np.array(y)
            for m in ("cma_real", "sbd_data"):
                try:
                    y.sync2frame(**dict(kw, method=m))
                except ValueError:
                    res.stats["probe:rejected method"] += 1
                else:
                    res.fail("an unsupported method is accepted", m, key="method")
                    return
            if not np.array_equal(before, y):
                res.fail("a rejected capture changes", who, key="reject")
                return
        raw = np.array(y)
        ok = y.sync2frame(returntaps=sc["taps"], **kw)
        if sc["taps"]:
            ok = ok[1]
        sh = np.array(y.shiftfctrs)
        res.event(bool(ok), sh.tolist())
        res.sim_steps += L // (ps * OS // 2)
        even = not np.any(D % OS) and Nt // 2 % OS == 0     # a multiple of the symbol spacing is reachable
        early = np.min(D) < ps * OS + Nt
        # success is demanded where nothing speaks against it
        together = all(abs((p - q + P // 2) % P - P // 2) <= 40 * OS for p in D for q in D)
        fair = sc["M"] > 4 and even and not early and not hit and (np.max(D) + 2 * ps * OS + Nt <= L) and sc["method"] == "cma" and ps >= 512 and (together or not sc["theta"])
        if not ok:
            if fair:
                res.fail("no synchronisation", who, key="sync")
            return
        res.stats["probe:success"] += 1
        if y.synctaps != Nt or sh.shape != (n,):
            res.fail("positions for another number of taps or modes", "%s: %s, %s" % (who, y.synctaps, sh.shape), key="taps")
            return
        want = D[where] - Nt // 2
        err = (sh - want + P // 2) % P - P // 2
        if not (np.all(sh >= 0) and np.max(np.abs(err)) <= (0 if even and sc["M"] > 4 and not hit else OS // 2)):
            if np.any(sh < 0) or sc["M"] > 4 and not hit or np.max(np.abs(err)) <= 8:
                res.fail("wrong position", "%s: %s instead of %s (modulo %d)" % (who, sh.tolist(), want.tolist(), P), key="position")
            return
        if not np.array_equal(np.asarray(y), raw[where]):
            got = [[k for k in range(n) if np.array_equal(np.asarray(y)[m], raw[k])] for m in range(n)]
            res.fail("wrong order of modes", "%s: ports %s instead of %s" % (who, got, where.tolist()), key="order")
            return
        if not np.array_equal(np.asarray(pr.shift_signal(y, sh)), np.array([np.roll(v, -k) for v, k in zip(np.asarray(y), sh)])):
            res.fail("shifting by the positions moves the frame elsewhere", who, key="shift")
            return
        if sc["more"] % OS == 0 and not np.array_equal(pr.correct_shifts(sh, (Nt, Nt + sc["more"]), OS), sh - sc["more"] // 2):
            res.fail("positions for longer filters are not the ones of the frame", "%s: %s for %d taps instead of %s" % (who, sh.tolist(), Nt + sc["more"], (sh - sc["more"] // 2).tolist()), key="longer filters")
            return
        # modes that arrive together belong to the same frame
        dd = D[where]
        k = np.round((sh - want) / P).astype(int)
        start = dd + k * P      # where the frame really starts
        for p in range(n):
            for q in range(p):
                apart = (dd[p] - dd[q] + P // 2) % P - P // 2
                if together and start[p] - start[q] != apart:
                    res.fail("modes are aligned to different frames", "%s: positions %s" % (who, sh.tolist()), key="frames")
                    return
        if np.ptp(D) <= 40 * OS and np.min(D) >= Nt // 2 and np.max(D) + P + Nt <= L and np.max(sh) + P + Nt - 1 > L:
            res.fail("aligned to an incomplete frame", "%s: %s, with a complete one before" % (who, sh.tolist()), key="incomplete")
            return
        if sc["again"] and fair:
            res.stats["probe:synchronised again"] += 1
            z = y.copy()
            ok2 = z.sync2frame(**kw)
            if not ok2 or not np.array_equal(np.asarray(z), np.asarray(y)) or not np.array_equal((np.array(z.shiftfctrs) - sh) % P, 0 * sh):
                res.fail("another result the second time", "%s: %s, %s" % (who, sh.tolist(), z.shiftfctrs), key="again")
                return
        taps = Nt + sc["more"]
        if even and sc["M"] > 4 and sc["snr"] >= 35 and sc["method"] == "cma" and not hit and np.max(sh) + 2 * P + 2 * taps <= L:
            foe = np.array(y._foe)
            y.corr_foe()
            if np.any(np.asarray(y._foe) != 0):
                res.fail("a corrected frequency offset is kept", "%s" % foe.ravel(), key="foe")
                return
            t, out = eq.pilot_equaliser(y, (1e-3, 1e-3), taps, foe_comp=True)
            out, ph = phaserec.pilot_cpe(out, N=5)
            res.stats["probe:payload"] += 1
            res.stats["probe:payload os %d" % OS] += sc["more"] > 0
            back = 1 if np.min(sh - (taps - Nt) // 2) < 0 else 0
            al = np.asarray(s.symbols.coded_symbols)
            j = np.arange(F)
            keep = (j >= ps) & ((j - ps) % sc["pr"] != 0)
            tx = np.array(s).reshape(n, sc["nframes"], F)
            for m in range(n):
                f = (k[m] + back) % sc["nframes"]
                e = np.mean(linksim.nearest(al, np.asarray(out)[m, keep]) != linksim.nearest(al, tx[m, f, keep]))
                if e > (.1 if sc["M"] == 16 else .3):
                    res.fail("payload is lost", "%s: mode %d, frame %d: %.0f %% of the symbols wrong" % (who, m, f, 100 * e), key="payload")
                    return

    def shrink(self, sc):
        if sc["event"]:
            yield dict(sc, event=None)
        if sc["n"] > 1:
            n = sc["n"] - 1
            yield dict(sc, n=n, order=[q for q in sc["order"] if q < n], rot=sc["rot"][:n], delay=sc["delay"][:n])
        for k, v in (("foe", 0), ("theta", 0), ("snr", 50), ("rot", [0] * sc["n"]), ("order", list(range(sc["n"]))), ("again", False), ("taps", False), ("more", 0), ("dtype", "complex128"), ("M", 16), ("method", "cma"), ("nframes", 1), ("fresh", False),
                     ("delay", [sc["delay"][0]] * sc["n"]), ("delay", [sc["os"] * sc["ps"]] * sc["n"])):
            if sc[k] != v:
                yield dict(sc, **{k: v})


CHECK = C14
