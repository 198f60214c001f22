#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json."""
import json, os
T = "deterministic simulation with fault injection"
LIBNOTE = ("Seeded search over thread interleavings of the real library on the real rayon, scheduled by a simulated OS at every basic block "
  "and memory access (sequentially consistent interleavings only), with spurious wake-ups, starved and frozen workers. ")
CLINOTE = ("Seeded search over fault sequences and schedules: the real executable runs as real processes whose every system call is answered "
  "by a simulated disk, which injects errors, short transfers, kills, power loss and damage. ")
notes = {
 "L01": LIBNOTE + "Oracle: every tile compressed on its own by the serial build, junk in masked-out pixels.",
 "L02": LIBNOTE + "Oracle: decoder written from the format definition.",
 "L03": LIBNOTE + "Calls with too short buffers next to and before correct calls; panics, hangs, aborts and neighbours' results are judged.",
 "L04": LIBNOTE + "1-4 callers in six calling contexts; every output compared with the single-threaded reference, guard bytes around every buffer.",
 "L05": LIBNOTE + "Completion within a step budget proportional to the image, with all workers but one frozen for ever in half of the runs.",
 "L06": LIBNOTE + "Both builds execute each call; outputs and panics are compared.",
 "L07": "The serial build's calls run while the simulated allocator and thread creation refuse everything, on 1-3 interleaved threads with stacks of 128 KiB; outputs compared with the oracles of L01 and L02.",
 "L08": LIBNOTE + "One or all allocations or thread creations from a seeded point on fail; calls that return normally must have the correct output, nothing may hang.",
 "L09": LIBNOTE + "Heap use and thread creation are counted by the simulated OS over hundreds to thousands of calls with changing arguments; growth is confirmed with eight times as many calls.",
 "L10": "The real library runs under a simulated machine with one processor for each thread, whose clocks advance with the basic blocks and memory accesses executed; duration with all workers compared with that with one.",
 "C01": CLINOTE + "Oracle: strict own PNG/DDS readers and the expected pixels or blocks, whenever the exit status is 0.",
 "C02": CLINOTE + "Oracle: byte equality with an undisturbed run of the same command.",
 "C03": CLINOTE + "Oracle: complete log of modified paths and snapshot of the file tree before and after.",
 "C04": CLINOTE + "A second process converts what the disturbed first one left, or reads it while the first is writing; its result is compared with that on the complete file.",
 "C05": CLINOTE + "Histories of up to three disturbed runs plus foreign debris, then a fault-free run compared with one in an empty directory.",
 "C06": CLINOTE + "2-4 processes interleaved system call by system call, each compared with its run alone.",
 "C07": CLINOTE + "Truncations, bit flips and bursts in every chunk, appended bytes; outputs compared with those of the undamaged file.",
 "C08": CLINOTE + "Persistent faults of every kind; end of every process within bounds on steps, system calls and CPU time.",
 "C09": CLINOTE + "Every process that fails or does not deliver its output must end with a non-zero status or signal and a message on standard error.",
 "C10": CLINOTE + "Peak heap use of every process, counted by the simulated allocator, against a bound linear in picture and file size, with lying headers, damage and faults.",
}
checks = [dict(property=k, quick_cmd="bash bin/check %s" % k, thorough_cmd="VERIF_TIER=thorough bash bin/check %s" % k,
  evidence_file="evidence/%s.json" % k, technique=T, level="exploration", level_note=v) for k, v in notes.items()]
pure = "pure function of its arguments in one thread: no schedule, clock, I/O or fault can influence it, so a simulator has nothing to vary; deciding it would be input-space testing or proof, another technique"
na = [
 dict(property="B01", reason="Influence of masked-out pixels on one block is a " + pure + ". (L01 does check it for the masks and stale pixels that whole images produce.)"),
 dict(property="B02", reason="Compression error of one block is a " + pure + "."),
 dict(property="B03", reason="Relative quality of the algorithms on one block is a " + pure + "."),
 dict(property="B04", reason="Size arithmetic is a " + pure + ". (L01 and L02 check it for the sizes they simulate.)"),
]
m = dict(version=1, setup_cmd="bash bin/build.sh all", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
