#!/usr/bin/env python3
"""Write the per-property section of DESIGN.md from the texts below, the bounds
the checks state, and the seeded changes; the general part is kept."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from symx import runner

T = {
"C01": ("BmapCreate.generate() and BmapCopy.copy() (classes and command line) are executed one after the other over one symbolic sparse image; the bmap text with its symbolic numbers goes through the real writer, the real XML parser and the real reader.",
        "For a fresh symbolic offset x below the image size: what the destination holds at x is the image's byte x, or both are 'hole'; the size is the image's; the copy did not fail.",
        "The tests use a handful of random images; here position, length and size are unknowns, so unaligned last blocks, adjacency and batch boundaries are all in one formula."),
"C02": ("copy() over a generated bmap text whose range bounds, sizes and block counts are symbolic, against a recorded list of writes (offset term, length term, source segment).",
        "For a symbolic offset x: mapped → image byte x; unmapped → old content / zero / hole; final size of a regular file = image size.",
        "Tests compare whole files for a few images; wrong offsets at the last partial block, at batch boundaries and with old content need symbolic x."),
"C03": ("As C02 without a bmap, image size known or not, destination with any old content.",
        "Byte x of the destination is byte x of the image for every x; final size equal.",
        "Tests never have an old, longer destination, nor sizes around batch boundaries."),
"C04": ("copy() with checksum attributes; whether the contents of a given range are the ones described is a solver Boolean per range (`hash_facts`).",
        "Outcome 'failed with an error' iff verification is on and one of the described ranges differs.",
        "Quantifies over all subsets of bad ranges, all positions, and the digest kinds."),
"C05": ("Constructor of BmapCopy and copy() with a bmap having one symbolic defect.",
        "The API's error is raised and the recorder saw no write, truncate or open-for-write of the destination. Defect-free controls must be accepted.",
        "Any wrong count, any version number, any digest character: sampled nowhere in the tests."),
"C06": ("copy() with an image that ends at a symbolic position, or a bmap with a wrong mapped count.",
        "Success is impossible if a whole mapped block is missing, or the counts differ.",
        "All truncation points at once."),
"C07": ("copy() with a fault hook; the index of the failing operation is symbolic.",
        "The caller sees an error (from copy(), sync() or close()); the run ends; if it does not fail, then the fault was not reached.",
        "Crash point enumeration by the solver; the tests contain no failing device at all."),
"C08": ("Reader and writer as cooperative threads; each choice of the scheduler is a symbolic selector; queue capacity observed.",
        "Final content independent of the schedule, no deadlock, no leftover non-daemon thread, number of batches alive ≤ 8, error from either side reported.",
        "Interleavings are not controllable in a test."),
"C09": ("Recorder with three levels per write: user-space buffer, kernel, device. Periodic syncs of block devices included.",
        "After a successful synchronous copy nothing is below 'device' level at any offset; dirty data of a block device never exceeds the watermark plus one batch; no fsync on a character device.",
        "Durability cannot be observed by a test without a power failure."),
"C10": ("Opening and copying to a block device of symbolic capacity, via class and command line.",
        "Known-too-large → error and no write; fits → no such error; opened with O_EXCL.",
        "Tests have no block device."),
"C11": ("Copy to a block device with a modelled sysfs; one sysfs access and one copy operation may fail at symbolic positions.",
        "At the end both tunables have their initial value, whatever the outcome; unreadable ones do not fail the copy.",
        "Tests have no block device, let alone one that fails half way."),
"C12": ("Copy with a recording progress file, symbolic clock and splash pipe faults.",
        "Sequence of printed percentages monotone within 0..100, final 100 on success; outcome unchanged by the pipe.",
        "Depends on timing, which is symbolic here."),
"C13": ("FilemapFiemap over a modelled FIEMAP ioctl (bytes of the real struct layout; extents symbolic).",
        "For a symbolic block b of the interval: reported iff covered by an extent; ranges increasing, disjoint, not adjacent; single-block query agrees.",
        "Extent layouts, splits between calls (boundary of a full buffer) and values above 32 bits."),
"C14": ("FilemapSeek over a modelled lseek.",
        "Symbolic block b: reported iff it contains a data byte; order and bounds; single-block query agrees.",
        "Arbitrary byte granularity; tests only see that of the local file system."),
"C15": ("filemap(), BmapCreate and the command line over every combination of kernel abilities.",
        "Result is a bmap only from a method that works (then containing the symbolic data area); else the API's error.",
        "The test machine has a single kernel and file system."),
"C16": ("BmapCreate.generate() over a symbolic sparse image; the text written is parsed by an oracle.",
        "Each field true; x mapped iff x in a range; digests are taken of exactly the range's bytes (rope comparison); file checksum valid.",
        "As C01, but every field of the file on its own."),
"C17": ("As C16 with exact text widths: number of digits of each printed number and length of each size name are case-split by the solver.",
        "The text after the in-place completion equals the template with the fields filled in: no byte outside the fields changed, parsable by the reader.",
        "Overlap happens only for particular magnitudes (e.g. size names getting longer at unit boundaries)."),
"C18": ("TransRead over local, compressed, http, ssh, stdin sources; histories of symbolic reads and seeks, short reads.",
        "Each read returns the image's bytes [pos, pos+n) at the position an ideal file would have; tell agrees; impossible seeks raise and lose nothing.",
        "Histories and short reads of pipes are timing-dependent."),
"C19": ("TransRead over every file name (symbolic characters), installed tools, failing tools at any point.",
        "Independent table of suffixes → format; pipeline executed by a model of the tools; error naming the tool if missing; end of data with a failed tool is an error.",
        "All names up to the bound, each failure position; the tests have the tools of one machine."),
"C20": ("TransRead with symbolic URL parts (solver strings split along the code's own searches), netrc model, opener and ssh models.",
        "Credentials registered = the URL's, else netrc's of that host; URL requested has none; ssh argv, environment and quoting as required; each failure an error.",
        "Tests have no remote source at all."),
"C21": ("CLI.main over signature configurations with a gpg stand-in whose verdict is symbolic and depends on the contents it is given.",
        "Any image data written → verification ran on these very bytes, and every signature had VALID; or the skip option was given.",
        "The tests check a few good/bad signatures with a real gpg; not with several signatures, URLs, missing software."),
"C22": ("CLI.main over options and present candidate files.",
        "Own implementation of the documented rules: which bmap is used, refusal, exit status ⇔ success of destination/bmap.",
        "All combinations instead of none (tests call the classes)."),
"C23": ("human_size/human_time with unbounded symbolic numbers (within the bound).",
        "Shown number × unit within a tenth of the unit of the true value; unit range; h/m/s add up.",
        "Unit boundaries."),
"C24": ("contrib/bmap_write.py main over the same symbolic bmaps.",
        "As C02 with zero outside mapped blocks; failures reported.",
        "There is no test of the script at all."),
"C25": ("copy() over bmap texts generated per version by an independent writer; versions symbolic.",
        "Accepted iff major ≤ 2, range digests used as that version says, same content as C02.",
        "The tests have a few sample files; layouts and later minor versions are not sampled."),
"C26": ("BmapCreate (by path, by file object) and CLI.main with one failing operation at a symbolic position; inputs which must be refused.",
        "A failing operation ⇒ an error, or (where another way may be found) a bmap which passes the whole oracle of C16; nothing failed ⇒ success; refused ⇒ no complete bmap.",
        "No test makes an operation fail."),
"C27": ("TransRead constructor, read/seek and close over symbolic sources with processes which take input only as fast as their output is taken, and the helper thread under the scheduler.",
        "After close(): every file of the model is closed, every process was waited for, no thread is alive; a blocked state is a violation. Replays count descriptors, threads and children of the real process, with stream tools that block on full pipes.",
        "Tests read every source to the end."),
"C28": ("BmapCopy.__init__/copy, BmapCreate.generate and CLI.main over symbolic images, bmaps and clocks (the time between two looks at a clock and every change of the wall clock are symbolic reals).",
        "The public attributes and the figures in the messages equal those of the bmap and the image, the percentage is mapped over all blocks, the duration is the time that passed by the monotonic clock, the speed is the mapped size over it; a complete copy is a success whatever the clocks show.",
        "The tests look at none of these figures."),
"C29": ("CLI.main (copy and create, with signatures, local and remote files), BmapCopy.copy, BmapCreate.generate and Filemap over symbolic images and faults, with a model of the files that are there: contents, removal, creation, shared mappings and refused write access.",
        "After the command every input file of the model is there with the content it had, none was opened for writing where that is refused, and no file was created but the output and those that vanish with the process. Replays compare the real files and list the scratch directory.",
        "The tests look at the destination only."),
}
GEN = open(os.path.join(V, "tools", "design_general.md")).read().rstrip()
out = [GEN, "", "## Per property", ""]
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
for p in props:
    c = runner.load_check(p["id"])
    d, o, w = T[p["id"]]
    out += ["### %s %s" % (p["id"], p["title"]), "",
            "*Executed:* " + d, "", "*Oracle:* " + o, "", "*Beyond the tests:* " + w, "",
            "*Bounds (quick):* %s." % c.BOUNDS["quick"], "",
            "*Bounds (thorough):* %s." % c.BOUNDS["thorough"], ""]
    if getattr(c, "OUTSIDE", None):
        out += ["*Outside:* %s." % c.OUTSIDE, ""]
    if getattr(c, "ASSUMPTIONS", None):
        out += ["*Assumed:* %s." % "; ".join(c.ASSUMPTIONS), ""]
    ev = os.path.join(V, "evidence", p["id"] + ".json")
    if len(sys.argv) > 1 and os.path.exists(ev):
        pass
out += [open(os.path.join(V, "tools", "design_tail.md")).read().rstrip(), ""]
kf = json.load(open(os.path.join(V, "known_findings.json")))
kf = kf if isinstance(kf, list) else kf.get("findings", kf)
out += ["### Repaired", ""]
out += ["* `%s`" % e["entry"] if e.get("fixed") else "* known finding: %s" % e for e in kf]
out += ["", "## Planted changes", "",
        "Each is caught by the quick check of the property it was written for.",
        "", "| change | breaks | needs |", "|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    out.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["what_it_breaks"], m["needs"]))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
