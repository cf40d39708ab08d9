"""C15: error rates against the errors the simulated link made."""
import random

import numpy as np

from vsim import harness, linksim

KINDS = ["qam", "qam", "qam", "qam", "psk", "prbs", "bert", "symonly", "fromsym", "frombits", "pilots"]


class C15(harness.Check):
    id = "C15"
    technique = "deterministic simulation of a link that delays, permutes, rotates, repeats, cuts and corrupts, against a reference model that knows every event"
    runs = {"quick": 6000, "thorough": 60000}
    variant = "plain"
    rule = ("a run transmits one signal of 160-600 symbols on one to three modes over a link whose trace is a seeded list of events: acquisition instant per mode, mode order, quarter-turn per mode, length of the capture "
            "(an excerpt, the whole, several repetitions), replaced symbols (up to 8 %); the error rates, error vectors and synchronised references are compared with the trace; non-trivial if a symbol was replaced")
    state_measure = "distinct link traces"
    real = ["qampy.signals (error rates, synchronisation), qampy.core.ber_functions, qampy.core.signal_quality with the compiled kernels"]
    stubs = ["the link"]
    assumptions = ["sequences of at least 160 symbols and at most 8 % errors: shorter or worse ones do not identify a delay", "a single-mode excerpt that wraps keeps at least half of it contiguous"]
    required_probes = ["delay", "negative lag", "mode order", "rotation", "excerpt", "repetition", "whole periods", "errors", "no errors", "synchronised", "verbose", "fewer modes", "pilot signal", "received as array", "large offset", "first or last symbol",
                       "bit stream nosync", "bit stream tx2rx", "bit stream rx2tx", "bit stream adjust", "bit stream not found"]

    def gen(self, rng, tier, index):
        if rng.random() < .2:
            return self.gen_bits(rng)
        n = rng.choice([1, 2, 2, 3])
        N = rng.randint(160, 600)
        sc = {"kind": rng.choice(KINDS), "M": rng.choice([4, 4, 16, 16, 64, 32, 8, 128]), "N": N, "nmodes": n, "seed": rng.getrandbits(20), "dtype": rng.choice(["complex128", "complex128", "complex64"])}
        if sc["kind"] == "bert":
            n = sc["nmodes"] = min(n, 2)
        sc["synced"] = rng.random() < .15
        sc["order"] = rng.sample(range(n), n)
        sc["keep"] = rng.choice([n, n, n, rng.randint(1, n)])
        sc["rot"] = [rng.randrange(4) for _ in range(n)]
        d = rng.choice([0, 1, -1, rng.randint(-N, N), rng.randint(0, N - 1), N - 1, N // 2])
        sc["delay"] = [d if rng.random() < .4 else rng.randint(-N, 2 * N) for _ in range(n)]
        x = rng.random()
        sc["n"] = N if x < .4 else rng.randint(160, N) if x < .65 else rng.choice([2 * N, 3 * N]) if x < .75 else rng.randint(N + 1, 3 * N)
        sc["errors"] = [[rng.randrange(n), rng.choice([0, -1, rng.randrange(1 << 20), rng.randrange(1 << 20), rng.randrange(1 << 20)]), rng.randrange(200)] for _ in range(rng.choice([0, 0, 1, 2, 5, 12, 40]))]
        sc["errors"] = sc["errors"][:int(.08 * sc["n"])]
        if rng.random() < .1:      # the best place is not the first one, and whole periods lie before it
            sc["delay"] = [rng.choice([0, 0, N, -N, 2 * N])] * n
            sc["n"] = rng.choice([2 * N, 3 * N, rng.randint(2 * N, 3 * N)])
            sc["errors"] = [[rng.randrange(n), rng.randrange(1 << 20) % N, rng.randrange(200)] for _ in range(rng.choice([1, 3, 10]))] + [[m, rng.randrange(N), rng.randrange(200)] for m in range(n)]
        sc["as_array"] = rng.random() < .3
        sc["measures"] = rng.choice([["ser"], ["ber"], ["ser", "ber"], ["ber", "ser"]])
        sc["verbose"] = rng.random() < .5
        sc["noise"] = rng.choice([0, 0, 0, 1e-4, .02])
        return sc

    def gen_bits(self, rng):
        """bit streams, as the functions for single streams take them"""
        N = rng.randint(200, 900)
        x = rng.random()
        L = N if x < .4 else rng.randint(160, N) if x < .6 else rng.choice([2 * N, 3 * N]) if x < .75 else rng.randint(N + 1, 3 * N)
        sc = {"kind": "bits", "N": N, "L": L, "delay": rng.choice([0, 1, N - 1, rng.randrange(N), rng.randrange(N)]), "seed": rng.getrandbits(20), "how": rng.choice(["nosync", "nosync", "tx2rx", "rx2tx", "adjust", "adjust", "adjust"]),
                "side": rng.choice(["tx", "rx"]), "invert": rng.random() < .3, "Lsync": rng.choice([40, 64, 100, 150]), "imax": rng.choice([200, 200, 1, 3, 10]), "type": rng.choice(["bool", "bool", "bool", "float", "complex"]),
                "errors": [rng.randrange(1 << 20) for _ in range(rng.choice([0, 1, 3, 10, 25]))], "burst": rng.choice([None, None, None, rng.randrange(1 << 20)]), "strange": rng.random() < .1}
        if rng.random() < .1:      # the best place is not the first one, and whole periods lie before it
            sc.update(delay=0, L=rng.choice([2 * N, 3 * N, rng.randint(2 * N, 3 * N)]), errors=[rng.randrange(N) for _ in range(rng.choice([1, 3, 10]))], burst=None)
        return sc

    def run_bits(self, sc, res):
        from qampy.core import ber_functions as bf
        r = np.random.RandomState(sc["seed"])
        N, L, d, how = sc["N"], sc["L"], sc["delay"], sc["how"]
        if how in ("tx2rx", "rx2tx"):
            L = N
        tx = r.rand(N) < .5
        full = np.tile(np.roll(tx, d), -(-L // N))[:L]
        rx = full.copy()
        for e in sc["errors"][:int(.05 * L)]:
            rx[e % L] ^= True
        if sc["burst"] is not None:
            a = sc["burst"] % L
            rx[a:a + 20] = r.rand(len(rx[a:a + 20])) < .5
        wrong = full != rx
        res.stats["probe:bit stream " + how] += 1
        res.stats["fault:bit error"] += int(wrong.sum())
        res.stats["fault:delay"] += d != 0
        res.nontrivial = d != 0 or bool(wrong.any())
        who = "%s of %d bits in %d, delay %d, %d errors" % (how, L, N, d, wrong.sum())
        if how == "nosync":
            y = ~rx if sc["invert"] else rx
            res.stats["fault:inverted"] += sc["invert"]
            ber, errs, n = bf.cal_ber_nosyncd(y, tx)
            res.event(errs, n)
            if errs != wrong.sum() or n != L or abs(ber - errs / n) > 1e-12:
                res.fail("wrong error rate", "%s: %s errors of %s" % (who, errs, n), key="rate:nosync")
            return
        if how in ("tx2rx", "rx2tx"):
            k = sc["Lsync"]
            if sc["strange"]:
                rx = r.rand(L) < .5      # something else was sent
            # the blocks that are found: without errors and not across the end of the pattern
            found = [i * k for i in range(min(sc["imax"], L // k)) if not sc["strange"] and not wrong[i * k:(i + 1) * k].any() and (i * k - d) % N + k <= N]
            try:
                i, out = (bf.sync_tx2rx if how == "tx2rx" else bf.sync_rx2tx)(tx, rx, k, sc["imax"])
            except bf.DataSyncError:
                res.event("no sync")
                res.stats["probe:bit stream not found"] += 1
                if found:
                    res.fail("no synchronisation", who, key="sync:" + how)
                return
            res.event(i)
            if not found:
                res.fail("synchronised to something else", "%s: offset %s, though no block of %d bits is without errors" % (who, i, k), key="other:" + how)
            elif (i + d) % N or not np.array_equal(out, full if how == "tx2rx" else np.roll(rx, -d)):
                res.fail("wrong position", "%s: %s" % (who, i), key="position:" + how)
            return
        conv = {"bool": lambda x: x, "float": lambda x: 2. * x - 1, "complex": lambda x: (2. * x - 1) * np.exp(.25j * np.pi)}[sc["type"]]
        if sc["type"] == "complex":
            b = r.rand(N) < .5
            fb = np.tile(np.roll(b, d), -(-L // N))[:L]
            cx = lambda u, v: ((2. * u - 1) + 1j * (2. * v - 1)) / np.sqrt(2)
            t, y, f = cx(tx, b), cx(rx, fb), cx(full, fb)
            q = sc["seed"] % 4
            y = y * 1j ** q
        else:
            t, y, f, q = conv(tx), conv(rx), conv(full), 0
        (a, b), acm = bf.sync_and_adjust(t, y, adjust=sc["side"])
        res.event(len(a), len(b))
        who += ", adjust %s, %s" % (sc["side"], sc["type"])
        # places the pattern can have in the received data, by the number of symbols they share
        cand = [(min(L, k + N) - max(0, k), k) for k in range(d % N - N * (L // N + 2), L, N) if k > -N]
        best = max(cand)[0]
        if sc["type"] == "bool" and best < .8 * min(N, L):
            res.stats["probe:ambiguous bits"] += 1
            return
        if sc["side"] == "tx":
            # the received data stay, the transmitted ones are put next to them
            good = len(a) == len(b) == L and np.array_equal(b, y)
            good = good and any(np.allclose(a[max(0, k):k + N], (f * 1j ** q if q else f)[max(0, k):k + N]) for c, k in cand if c >= best - 2 * wrong.sum() - .05 * best)
            if L >= N:
                good = good and np.allclose(a, f * 1j ** q if q else f)
        else:
            # the transmitted data stay, symbols that were not received are made up
            z = y * 1j ** -q if q else y
            good = len(a) == len(b) == N and np.array_equal(a, t) and any(np.allclose(b[max(0, -k):L - k], z[max(0, k):k + N]) for c, k in cand if c >= best - 2 * wrong.sum() - .05 * best)
        if not good:
            res.fail("wrong alignment", "%s: lengths %d and %d" % (who, len(a), len(b)), key="align:" + sc["side"])

    def make(self, sc):
        from qampy import signals
        k, M, N, n, seed = sc["kind"], sc["M"], sc["N"], sc["nmodes"], sc["seed"]
        dt = np.dtype(sc["dtype"]).type
        if k == "qam":
            return signals.SignalQAMGrayCoded(M, N, nmodes=n, seed=seed, dtype=dt)
        if k == "psk":
            return signals.SignalPSKGrayCoded((4, 8, 16)[seed % 3], N, nmodes=n, seed=seed, dtype=dt)
        if k == "prbs":
            return signals.SignalQAMGrayCoded(M, N, nmodes=n, bitclass=signals.PRBSBits, seed=[(seed * 2654435761 + 7919 * i) % 32749 + 1 for i in range(n)], order=[(15, 23, 31)[i] for i in range(n)], dtype=dt)
        if k == "bert":
            return signals.QPSKfromBERT(N, nmodes=n, prbsorders=((15, 23), (23, 15)), prbsshifts=(seed % 50, seed % 70), prbsinvert=(bool(seed & 1), False), dtype=dt)
        if k == "symonly":
            r = np.random.RandomState(seed)
            a = np.array([1, 1j, -1, -1j, 1 + 1j, -1 + 1j, -1 - 1j, 1 - 1j]) / np.sqrt(1.5)
            return signals.SymbolOnlySignal.from_symbol_array(r.choice(a, (n, N)).astype(dt), a.astype(dt))
        if k == "fromsym":
            src = signals.SignalQAMGrayCoded(min(M, 16), N, nmodes=n, seed=seed, dtype=dt)
            return signals.SignalQAMGrayCoded.from_symbol_array(np.array(src), M=min(M, 16))
        if k == "frombits":
            return signals.SignalQAMGrayCoded.from_bit_array(signals.RandomBits(N * int(np.log2(M)), nmodes=n, seed=seed), M, dtype=dt)
        return signals.SignalWithPilots(M, 20 + 8 * (N // 8), 20, 8, nframes=1, nmodes=n, seed=seed, dtype=dt)

    def ambiguous(self, ref, clean, sc, n, N):
        """whether another place or mode resembles the received symbols nearly as much as the one they came from"""
        for j in range(n):
            for m in range(n):
                c = np.abs(np.correlate(clean[j], ref[m], "full"))
                lag = np.arange(len(c)) - (N - 1)
                here = (lag - sc["delay"][j]) % N == 0 if m == sc["order"][j] else np.zeros(len(c), bool)
                if m == sc["order"][j]:
                    peak = c[here].max()
                other = c[~here].max()
                if m == 0:
                    worst = other
                worst = max(worst, other)
            if worst > .75 * peak:
                return True
        return False

    def run(self, sc, res):
        np.seterr(all="ignore")
        if sc["kind"] == "bits":
            return self.run_bits(sc, res)
        tx = self.make(sc)
        kind, n = sc["kind"], sc["nmodes"]
        pilot = kind == "pilots"
        ref = np.array(tx.get_data()) if pilot else np.array(tx)
        N = ref.shape[1]
        alpha = np.asarray(tx.coded_symbols)
        spin = np.max(np.min(np.abs(alpha[:, None] * 1j - alpha), axis=1)) < 1e-5
        L = N if pilot else max(sc["n"], 160)
        # ---- the link
        clean = np.empty((n, L), ref.dtype)
        for j in range(n):
            m = j if sc["synced"] else sc["order"][j]
            d = 0 if sc["synced"] or pilot else sc["delay"][j]
            k = 0 if sc["synced"] or not spin else sc["rot"][j]
            clean[j] = np.tile(np.roll(ref[m], d), -(-L // N))[:L] * np.array(1j ** k, dtype=ref.dtype)
            res.stats["fault:delay"] += d % N != 0
            res.stats["fault:rotation"] += k != 0
            res.stats["fault:mode order"] += m != j
            res.stats["probe:delay"] += d % N != 0
            res.stats["probe:negative lag"] += d < 0
            res.stats["probe:large offset"] += d % N > N // 2
            res.stats["probe:rotation"] += k != 0
            res.stats["probe:mode order"] += m != j
            res.event("mode", m, d, k)
        idx = linksim.nearest(alpha, clean)
        clean = alpha[idx]
        if not sc["synced"] and not pilot and self.ambiguous(ref, clean, sc, n, N):
            res.stats["probe:ambiguous sequence"] += 1
            return
        rx = clean.copy()
        for m, p, k in sc["errors"]:
            q = p if p == -1 else p % L
            linksim.corrupt(rx, alpha, [[m % n, q, k]])
            res.stats["probe:first or last symbol"] += q in (0, -1, L - 1)
        bad = np.abs(rx - clean) > 1e-9
        res.stats["fault:symbol error"] += int(bad.sum())
        res.stats["probe:errors"] += bool(bad.any())
        res.stats["probe:no errors"] += not bad.any()
        res.nontrivial = bool(bad.any())
        res.stats["probe:excerpt"] += L < N
        res.stats["probe:repetition"] += L > N
        res.stats["probe:whole periods"] += L > N and L % N == 0
        keep = sc["keep"] if not pilot else n
        rx, clean, bad = rx[:keep], clean[:keep], bad[:keep]
        res.stats["probe:fewer modes"] += keep < n
        y = rx.astype(ref.dtype)
        dmin = np.min(np.abs(alpha[:, None] - alpha)[~np.eye(len(alpha), dtype=bool)])
        if sc["noise"]:
            r = np.random.RandomState(sc["seed"] + 5)
            ang = r.rand(*y.shape) * 2 * np.pi
            y = (y + sc["noise"] / .02 * .3 * dmin * r.rand(*y.shape) * np.exp(1j * ang)).astype(ref.dtype)
        if pilot:
            s = tx.copy()
            s[:, ~np.asarray(tx._idx_pil)] = y
            res.stats["probe:pilot signal"] += 1
        else:
            s = tx.recreate_from_np_array(y)
        table = None if kind == "symonly" else linksim.gray(tx.symbols if pilot else tx)
        before, sb = np.array(s), np.array(tx.symbols)
        res.state(str(sc["order"]), str(sc["rot"]), str(sc["delay"]), L)
        for what in sc["measures"]:
            if what == "ber" and kind == "symonly":
                continue
            kw = {"synced": sc["synced"]}
            if sc["verbose"]:
                kw["verbose"] = True
            if kind != "pilots" and sc["as_array"]:
                res.stats["probe:received as array"] += 1
                v = getattr(tx, "cal_" + what)(y.copy(), **kw)
            else:
                v = getattr(s, "cal_" + what)(**kw)
            rate, ev, rf = v if sc["verbose"] else (v, None, None)
            if what == "ser":
                want, wev, wref = bad.sum(axis=1) / L, bad, clean
            else:
                b0, b1 = table[linksim.nearest(alpha, clean)].reshape(keep, -1), table[linksim.nearest(alpha, rx)].reshape(keep, -1)
                wev, wref = b0 ^ b1, b0
                want = wev.sum(axis=1) / wev.shape[1]
            rate = np.asarray(rate)
            res.event(what, rate.tolist())
            how = "%s of %s %d-point %s: " % (what, kind, len(alpha), "synchronised" if sc["synced"] else "unsynchronised")
            if rate.shape != want.shape or not np.allclose(rate, want, rtol=1e-12, atol=1e-15):
                res.fail("wrong error rate", how + "%s instead of %s" % (rate, want), key="rate:" + what)
                return
            if sc["verbose"]:
                res.stats["probe:verbose"] += 1
                if what == "ser" and (ev.shape != wev.shape or not np.array_equal(np.asarray(ev) != 0, wev) and not np.array_equal(np.abs(np.asarray(ev)) > 1e-5, wev)):
                    res.fail("wrong error vector", how, key="vector:" + what)
                    return
                if what == "ber" and not np.array_equal(np.asarray(ev), wev):
                    res.fail("wrong error vector", how, key="vector:" + what)
                    return
                if np.shape(rf) != wref.shape or not np.allclose(np.asarray(rf, dtype=complex), wref, atol=1e-5):
                    res.fail("wrong synchronised reference", how, key="reference:" + what)
                    return
            res.stats["probe:synchronised"] += sc["synced"]
        if not np.array_equal(before, np.asarray(s)) or not np.array_equal(sb, np.asarray(tx.symbols)):
            res.fail("measuring changed the signal", "")

    def shrink(self, sc):
        if sc["kind"] == "bits":
            for i in range(len(sc["errors"])):
                yield dict(sc, errors=sc["errors"][:i] + sc["errors"][i + 1:])
            for k, v in (("burst", None), ("invert", False), ("type", "bool"), ("strange", False)):
                if sc[k] != v:
                    yield dict(sc, **{k: v})
            for k in ("N", "L"):
                if sc[k] > 200:
                    yield dict(sc, **{k: max(200, sc[k] // 2)})
            return
        for i in range(len(sc["errors"])):
            yield dict(sc, errors=sc["errors"][:i] + sc["errors"][i + 1:])
        if len(sc["measures"]) > 1:
            for m in sc["measures"]:
                yield dict(sc, measures=[m])
        if sc["nmodes"] > 1:
            n = sc["nmodes"] - 1
            yield dict(sc, nmodes=n, order=[x for x in sc["order"] if x < n], keep=min(n, sc["keep"]), rot=sc["rot"][:n], delay=sc["delay"][:n])
        for k, v in (("noise", 0), ("n", sc["N"]), ("keep", sc["nmodes"]), ("order", list(range(sc["nmodes"]))), ("rot", [0] * sc["nmodes"]), ("delay", [0] * sc["nmodes"]), ("dtype", "complex128"),
                     ("kind", "qam"), ("M", 4), ("as_array", False), ("N", 160)):
            if sc[k] != v:
                yield dict(sc, **{k: v})


CHECK = C15
