#!/usr/bin/env python3
"""Writes MANIFEST.json"""
import json, os
DSIM = "deterministic simulation: seeded discrete-event scheduler over painters, network and display with fault injection; "
GEN = "deterministic simulation: the font generator on simulated machines with seeded scheduler, disk and clock; "
C = {
 "C01": (DSIM + "refinement against a per-pixel reference model after every call", "Every pixel and cursor compared with an independent model after every call of each simulated history. Trusts the reference sprites (extracted from the source sheets) and the model. Sampling, not proof."),
 "C02": (DSIM + "streams in pieces against one call, with painter crash and restart", "Compares two executions of the real code; the reference parse only decides where cuts are glyph boundaries. Sampling."),
 "C03": (DSIM + "delivered interleaving against serial, reverse, round-robin and random ones", "Compares real executions of one set of scripts under six schedules. Sampling of schedules."),
 "C04": (DSIM + "changed-bits invariant after every call", "Checks every frame-buffer bit after every call, hostile registers included. Sampling."),
 "C05": (DSIM + "register and text corruption; panic, trap and hang detection; recovery probe", "Runs in three builds (overflow checks, release, wasm32). Sampling of hostile histories."),
 "C06": (DSIM + "at-least-once network; parity of deliveries", "Final frame buffer against once-per-odd-count, and undo of the whole history. Sampling."),
 "C07": (DSIM + "display crashes with dirty buffers; recovery against a never-crashed twin", "Window-exact comparison after every call, repeated crashes during recovery, demos from dirty buffers. Sampling."),
 "C08": (DSIM + "per-glyph disjointness and monotone cursor along each stream", "Glyph masks and cursor order checked glyph by glyph on the real code. Sampling."),
 "C09": (DSIM + "state digests of one history compared across three builds and a big-endian machine", "Same seeds executed in checked x86_64, release x86_64 and wasm32 under node; a few dozen of the shorter ones also on s390x interpreted by Miri. Sampling."),
 "C10": ("deterministic simulation: the page's scripts in a simulated browser; a seeded scheduler settles every promise and injects loading faults", "Real main.js, wasm.js and module; fetch, canvas and loading latencies are stubs of the standards. Sampling of orders and faults."),
 "C11": ("deterministic simulation: hosts sharing memory with module instances; seeded histories of init, host writes, growth, crashes", "Real module built from the tree, compared with the native library. Sampling."),
 "C15": (DSIM + "painter crash and restart from registers against a twin that never crashes", "Session state and pixels compared after every call. Sampling of crash points."),
 "C12": (GEN + "failing, short, interrupted and lost disk operations, full disks, crashes, damaged inputs; outcome against a fault-free run", "Real generator and Go standard library compiled for js/wasm from the tree; the machine below the system calls is simulated. Sampling of configurations and faults."),
 "C13": (GEN + "one configuration on two machines that differ in everything but the inputs, after crashed predecessors; byte equality", "Hash seed, goroutine schedule, clock, pid, environment, directory and I/O chunking are drawn per run. Sampling."),
 "C14": (GEN + "its output, compiled into the library, painted cluster by cluster against a model of the source sheets", "Random five-font configurations under short and interrupted I/O, and the repository's own configuration. Trusts the sheet model and the reference sprites. Sampling."),
 "C24": (GEN + "all sets in one calm run against the same sets in other orders and groupings, with crashed and repeated runs; byte equality", "Two histories of real generator executions on simulated machines. Includes sets that share sheets, indexes and alias files. Sampling."),
 "C27": (GEN + "configurations with hash collisions computed on purpose and clusters defined twice; the tests of the generated files, run, have to tell", "Real generator on simulated machines; its output and the tests in it compiled by rustc. Two thirds of the configurations have one conflict. Sampling."),
 "C28": (GEN + "several real processes on one simulated machine, a seeded scheduler interleaves their system calls, stalls and kills them; byte equality with one run", "Two to eight executions of the real generator share one simulated disk. Processes interleave at system calls. Sampling of schedules."),
 "C20": (DSIM + "a simulated display that reads the frame buffer after every store inside every call", "Stores are seen through memory-access instrumentation of the real library; each is compared with the states before and after its call. One build (optimised, nightly). Sampling of histories; exhaustive over the stores of each call."),
 "C21": (DSIM + "a gateway that rewrites texts in other spellings of the same clusters, against the display without it", "Two executions of the real code compared after every call; the aliases come from the committed index files. Sampling."),
 "C22": (DSIM + "the delivered history against the same history with all windows moved together", "Two executions of the real code compared after every call, whole frame buffer. Cursors from 2^31 on are left to C01 and C05. Sampling of histories and distances."),
 "C23": (DSIM + "the delivered history against a display that executes each call in horizontal strips, shuffled", "Two executions of the real code; pixels compared before every clear and at the end, cursors after every strip. Sampling of cuts and orders."),
 "C26": (DSIM + "the clock of the simulated processor counts basic blocks, those of core included; calls against the sum of their parts and a fixed bound", "Real code in a build that counts every basic block it executes (nightly, core rebuilt). A factor of 16 separates growth from overhead. Sampling of texts up to 131072 characters."),
 "C19": ("deterministic simulation: threads and interrupt handlers on a simulated machine; a seeded scheduler decides every switch inside calls, interrupt, delayed store and stopped thread; each painter against itself alone", "Real library compiled with memory-access instrumentation; every function entry, memory access and atomic operation is a point where the scheduler may act. Loads are not reordered. Sampling of schedules."),
}
checks = [dict(property=k, quick_cmd="./check %s quick" % k, thorough_cmd="./check %s thorough" % k,
               evidence_file="evidence/%s.json" % k, technique=t, level="exploration", level_note=n) for k, (t, n) in sorted(C.items())]
NA = {
 "C16": "Pure function of one string: no schedule, time, fault or history to simulate; deciding it means reasoning about or enumerating 32-bit hash collisions. (The genuine collisions found on the way are recorded as known findings of C01.)",
 "C17": "Static property of the source and the build; nothing executes that could be simulated.",
 "C25": "Behaviour of the Ruby script codegen/config_editor.rb; no Ruby interpreter is available here, so the real code cannot run under a simulator.",
 "C18": "Behaviour of the WEBrick server in wasm_demo/webserver.rb; no Ruby interpreter is available here, so the real code cannot run under a simulator.",
}
NA = {k: v for k, v in NA.items() if k not in C}
m = dict(version=1, setup_cmd="./setup", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
         notes="No hooks in /repo: every seam the simulators need already exists (arguments, imports, or Go's build overlay).")
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "MANIFEST.json"), "w"), indent=1)
