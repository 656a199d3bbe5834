#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (run by hand after editing)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("explicit-state enumeration of operation sequences and operand values against a reference matrix model", "Bounded-exhaustive: all cell-value tuples over a special-value alphabet for small shapes, all shapes of a grid, all operation sequences over 2-3 registers up to a depth. Sums are compared up to rounding order."),
 "C02": ("explicit-state enumeration of accessor histories against a 2-D array model", "Bounded-exhaustive over histories of get/set/row/column calls with valid and invalid arguments."),
 "C03": ("enumeration of all shape combinations and of histories with rejected calls, against a reference that decides which must be refused", "Bounded-exhaustive over argument shapes; rejected calls are inserted at every position of histories and a twin without them is compared bit for bit."),
 "C04": ("enumeration of layers x values x batches against a reference forward pass; all row subsets and orders", "Bounded-exhaustive over small values and shapes plus size sweeps; compared to 1e-9."),
 "C05": ("enumeration of call histories on a layer against reference gradients (analytic and dual numbers)", "Bounded-exhaustive histories of forward/backward/scribble/update calls; at exact kinks either one-sided derivative is accepted."),
 "C06": ("enumeration of predictions x labels against the definition of each loss", "Bounded-exhaustive over value alphabets including 0, 1 and both clip ends, all small shapes, size sweeps."),
 "C07": ("enumeration of predictions x labels against dual-number derivatives of the loss value", "Bounded-exhaustive over value alphabets, all small shapes, size sweeps."),
 "C08": ("enumeration of extreme input rows against the defining properties of the activations", "Bounded-exhaustive over an alphabet of extreme floats and all short rows."),
 "C09": ("enumeration of models x batches, whole-model gradients against dual-number differentiation of the reference model", "Bounded-exhaustive over model shapes, layer kinds and losses; one upstream path per model, generic parameters."),
 "C10": ("explicit-state exploration of optimizer histories against a reference SGD state machine", "All gradient sequences over an alphabet up to a depth for every hyperparameter setting of a grid, plus long runs."),
 "C11": ("explicit-state exploration of optimizer histories against a reference Adam state machine", "All gradient sequences over an alphabet up to a depth for every hyperparameter setting of a grid, plus long runs."),
 "C12": ("enumeration of training histories against a reference trainer", "All combinations of sample count, batch size, epochs, optimizers and models within bounds, and sequences of calls."),
 "C13": ("enumeration of histories of evaluations between training calls, compared with a twin that only trains", "All histories up to a depth, bit-for-bit."),
 "C14": ("exhaustive exploration of every outcome of the random draws (choice tree over the random source) on the real code", "Exact distributions for rates on the grid, all outcomes; the random source is replaced by a build overlay."),
 "C15": ("enumeration of model configurations and save/load/train histories, with a decoder written from the documents", "Bounded-exhaustive over layer kinds, sizes, settings, special floats, layer counts 1..300 and histories; bit-for-bit."),
 "C16": ("exhaustive fault enumeration: every prefix, every byte value at every position, pairs and products of header fields", "Every enumerated byte string is judged by an independent decoder; the address space is limited so that allocations out of proportion are violations."),
 "C17": ("exhaustive fault enumeration: a fault at every file operation and byte offset of a save, on the real code", "Faults are injected through an overlay of package os and, independently, through the kernel's file size limit."),
 "C18": ("conformance of every enumerated model configuration with an encoder/decoder written from the documents", "Bounded-exhaustive in both directions, including all orders of optimizer values."),
 "C19": ("explicit-state exploration of all assembly histories against a reference state machine", "All histories up to a depth over fitting and non-fitting add/finish/train/evaluate calls."),
 "C20": ("controlled-scheduler exploration (all schedules up to a preemption bound), all operation interleavings, and an independence check of every pair by happens-before analysis", "Scheduling points are inserted at every statement by a build overlay; within them execution is sequentially consistent. The happens-before check covers the executed paths."),
 "C21": ("enumeration of all small matrices over boundary values against the definitions", "Bounded-exhaustive, plus sweeps with the deciding entry at every position of larger shapes."),
 "C22": ("exhaustive exploration of every outcome of the random draws (choice tree) with exact probabilities", "All orders of small data sets with exact probabilities; larger ones by the generator's own stream."),
 "C23": ("controlled-scheduler exploration of the real code: all schedules up to a preemption bound", "Scheduling points at every statement through a build overlay; tearing inside one statement is not explored; concurrent use of maps is found by happens-before analysis."),
 "C24": ("enumeration of layers and models with every normal draw of the random source recorded and matched", "Every weight must be a different recorded draw times sqrt(2/inputs); independence of differently seeded sources is assumed."),
 "C25": ("enumeration of training settings and of logger set-up histories against a reference trainer and log model", "Bounded-exhaustive; figures compared to the printed precision."),
 "C26": ("enumeration of all combinations of boundary arguments for every constructor", "Exhaustive over the argument alphabets."),
 "C27": ("enumeration of save/load histories and of a fault at every file operation, with the process's open files and the directory observed after every call", "Bounded-exhaustive histories; faults through an overlay of package os and the kernel's file size limit; the garbage collector is held off so that it cannot close what was left open."),
 "C28": ("enumeration of models, data sets and optimizers; the fall of the reported loss against the way of the parameters, minima in closed form or by a grid as oracle", "Bounded-exhaustive over stacks, losses, batch splits and all small integer problems; needs no reference trainer, so it is independent of C09 and C12."),
 "C29": ("enumeration of all cyclic histories of one and two operations, each repeated until growth shows; heap in use after collection and goroutines observed", "All operations and all ordered pairs; growth is a violation only if it goes on over three successive parts of the history."),
 "C30": ("enumeration of training histories over models, losses, optimizers and extreme scales; the invariant (everything finite and in range) is checked after every epoch", "Bounded-exhaustive over stacks of up to three layers and six scales each of parameters and data; where gradient descent may diverge in exact arithmetic a case stops at 1e30."),
}
LEVEL = {"C16": "fault_enumeration", "C17": "fault_enumeration", "C27": "fault_enumeration"}
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "bash tools/setup.sh",
     "hooks": {"guard": "none in /repo: a go build overlay generated from the current sources (imports of math/rand, x/exp/rand, time, os, sync replaced by shims; scheduling points inserted)",
               "enable": "run.sh builds mc/ with go build -overlay; nothing in /repo is guarded or changed", "source_commits": []},
     "checks": [], "not_applicable": []}
for i in ids:
    if i not in T:
        raise SystemExit("no entry for " + i)
    m["checks"].append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                        "technique": "model checking: " + T[i][0], "level": LEVEL.get(i, "model_checking"), "level_note": T[i][1]})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
