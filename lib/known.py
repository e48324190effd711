"""Known findings of C01: texts that a hash-only lookup takes for another cluster"""
import os, re
import common as c


def collisions(binary):
    lines = [re.fullmatch(r"text=(\S+) taken-for=(\S+)", l).groups() for l in c.findings("C01")]
    p = c.save_replay("known-texts.tmp", "".join("%s %s\n" % l for l in lines))
    try:
        r = c.run_real([binary, "texts", c.REF, p])
    except c.Hung as e:
        raise c.Violation("C01", p, "painting a text of the list never returns: %s" % e)
    out = r.stdout.splitlines()
    os.unlink(p)
    if r.returncode or len(out) != len(lines):
        raise c.HarnessError("texts: " + r.stdout[-500:])
    n = {}
    for l in out:
        text, of, verdict = l.split()
        n[verdict] = n.get(verdict, 0) + 1
        if verdict == "taken":
            print("KNOWN-FINDING: property=C01 text %s draws the glyph of %s (equal 32-bit hashes)" % (text, of))
        elif verdict == "other":
            t = "dsim-trace 1\nprop C01\nseed 0\nfb0 1 0\nknob 0\nclient 0,0,336,536 %d 10,10,0\n@0 paint 0 %s\n"
            path = c.save_replay("C01-text-%s.trace" % text, "".join(t % (s, text) for s in (0, 1, 2)))
            raise c.Violation("C01", path, "text %s is drawn neither as it should be nor as the known finding" % text)
    return n
