import sys

from vsim import harness


def setup_main(args):
    from vsim import kernels
    for v in ("sim", "plain"):
        for m, p in sorted(kernels.build(v).items()):
            print(v, m, p)
    from vsim import fs, mem
    print(fs.build())
    print(mem.build())
    return 0


def segment_main(args):
    from vsim import session
    return session.segment_main(args)


def produce_main(args):
    from vsim.checks import c12
    return c12.produce_main(args)


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd in ("check", "replay"):
        return harness.with_scratch({"check": harness.check_main, "replay": harness.replay_main}[cmd], args)
    return {"worker": harness.worker_main, "minimise": harness.minimise_main, "setup": setup_main, "segment": segment_main, "produce": produce_main}[cmd](args)


sys.exit(main())
