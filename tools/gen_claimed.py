"""Writes tools/claimed.json: the checks that exist, with the deciding method and the limits of each."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
D = {}
def c(i, technique, note):
    D[i] = {"technique": technique, "note": note}

EXP = "Seeded search over simulated runs, not exhaustive. "
c("C01", "seeded writes through a simulated system-call layer with disk errors, short writes, kills and torn writes at chosen calls; bytes on disk compared with an undisturbed run",
  EXP + "A kill keeps what the kernel accepted; power loss is not modelled, as the library never promises fsync.")
c("C02", "seeded dumps that are refused: failing caller data at a chosen access, interrupts at chosen lines before the first write, bad arguments; directory tree compared before and after",
  EXP + "Interrupts after the first file operation are write failures (C01), not refusals.")
c("C03", "seeded dump and load histories with short transfers, EINTR and tiny buffers, compared with an independent model of the structure and an independent POSCAR reader",
  EXP + "Structures whose cell degenerates after rounding to the requested decimals are not compared.")
c("C04", "seeded torn, damaged and failing reads of POSCAR texts in all dialects, compared with an independent reader of the format",
  EXP + "Texts whose meaning the format leaves open may be read or refused.")
c("C05", "seeded I/O calls with faults and signals in chosen system calls and descriptor limits; descriptor table checked with the exception still held",
  EXP + "Signals are delivered inside system calls.")
c("C06", "seeded look-ups in generated directory trees with errors, concurrent renames, working directories and locales, compared with a reference model of the documented order",
  EXP + "Where the tree changes during a call any version present during it may be read.")
c("C07", "seeded calls under a scripted clock that ticks, jumps and crosses calendar edges; the stamp must be one instant that the clock passed",
  EXP + "Stamps have a resolution of one second.")
c("C08", "seeded thread schedules (few preemptions, random, lock step) at lines or bytecodes of the library under a cooperative scheduler; every result compared with the same call alone in a fresh process",
  EXP + "Threads switch at lines or bytecodes of wulfric only; native code is atomic.")
c("C09", "seeded histories of calls, edits of results and edits of inputs in one process, every call compared with the same call alone in a fresh process",
  EXP + "Documented aliases are not edited as results.")
c("C10", "seeded interrupts and memory errors raised at chosen lines of a call, followed by a repetition and another call, compared with calls in a fresh process; arguments and constants compared before and after",
  EXP + "Interrupts avoid with headers, handlers and finally clauses, where Python offers no guarantee.")
c("C11", "seeded calls that return, raise or are struck by an exception under unusual process settings; a snapshot of the settings compared before and after",
  EXP + "The random generators may advance in PlotlyEngine.")
c("C12", "seeded plans of calls run in several fresh simulated environments (hash seed, locale, time zone, scripted clock and entropy, working directory, import order, garbage collection); ordered digests of all results compared",
  EXP + "Environments differ in seams the simulator controls; another CPU or BLAS build is not simulated.")
c("C13", "seeded histories of structures, in-place edits and stored spglib data passed to every consumer, with the backend behind a recording stub; matching data must give the fresh result without a symmetry search, foreign data must be refused",
  EXP + "Structures that differ by less than the library's own comparison tolerance count as the same.")
c("C14", "seeded failures of the symmetry backend at chosen calls (no result, exceptions, bursts, recovery) through a stub in front of real spglib; outcome compared with the documented errors and the undisturbed result",
  EXP + "Wrong but well-formed answers of spglib are not injected, the library cannot know.")
c("C15", "seeded subsets of optional packages made missing or failing at import or at first use in fresh processes by an import hook; every outcome compared with the complete environment",
  EXP + "Partial failures inside an optional package that is installed are limited to ImportError.")
c("C16", "seeded histories of edits, refused edits, interrupted edits and reads of Kpoints objects, checked after every step against an executable reference model",
  EXP + "Reading a path that names a removed point is a recorded known finding.")
c("C17", "seeded interleavings of edits over several Kpoints objects, their copies, shared constructor arguments and readings; every other object compared after every step",
  EXP + "Private attributes are not edited.")
c("C18", "seeded sequences of in-place edits with interrupts at chosen lines and retries, compared with an exact reference of the allowed translations",
  EXP + "Interrupts strike at lines of the library.")
c("C19", "seeded sequences of plot calls, refused calls and failing show or save, with the resulting figure read back and compared with the data that was plotted",
  EXP + "One engine per figure; the browser's rendering is not simulated.")
c("C20", "seeded chains of conversions, edits and POSCAR checkpoints with failed, interrupted and repeated steps, torn dumps and restarts; an independent comparison decides whether each state is the same crystal in the same orientation",
  EXP + "A step that raises is a refused step; tolerance grows with the decimals of the checkpoint.")
c("C34", "seeded histories of conversions, changes of basis and orientation, reductions, in-place edits, interrupted and failed calls, checkpoints and restarts; every derived quantity asked along the way compared with the answer for the first description given by a fresh process, k-points also with the reciprocal lattice tracked independently",
  EXP + "A common error for every description of a crystal is not seen; structures at the boundary between two variations are passed over.")
c("C35", "a seeded coordinator hands calls, edits of Kpoints and drawings to simulated pools of forked or spawned workers: messages packed with chosen pickle protocols, replies delayed, lost and duplicated, workers killed or interrupted at chosen lines, backend failures; every result, object and error compared with the same work in one process",
  EXP + "Errors of other packages that cannot be packed are compared by name.")
c("C36", "seeded sequences of calls on extreme and damaged inputs with backend failures (once, several times, for ever), failing streams and interrupts, under a counter of executed steps that stops a call beyond its bound; and hundreds of repetitions on new structures with allocated blocks, files and threads counted",
  EXP + "Steps inside other packages are bounded only by processor time; a leak below one block per repetition is not seen.")
json.dump(D, open(os.path.join(here, "claimed.json"), "w"), indent=1)
