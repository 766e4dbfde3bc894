"""Writes DESIGN.md: fixed text + bounds of the check modules + matrix of the
planted bugs (tools/matrix.json, if present)."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)

HEAD = """# Model checking PTSSpace/APG

APG is a compiler: text files in, C headers / C initialisers / binary images /
COSMOS packet files out.  There are no threads; what a user relies on is that
*every* model is translated correctly, *every* bad model is refused, and that
the outcome is independent of everything that should not matter (order,
history, environment, faults).  The deciding step of every check is therefore
exhaustive enumeration of a bounded space: of input models (a transition
system that grows bundles by one member / definition / import / component at a
time), of orders and histories of runs, of iteration orders, or of faults.

Every explored element is run through the **real command line** of /repo's
current working tree (`asn1_parser/main.py`), never through a copy or a
translation of the code.  What the run wrote is then judged:

* C artefacts are compiled with gcc and *measured*: a probe program takes
  sizes, offsets, bit positions, signedness and enumerator values through the
  language (store all-ones, read back, scan the bytes), so that only the
  meaning of a header counts, never its text;
* COSMOS files are parsed into packets and items;
* `.bin` files are compared byte by byte, and read back through the struct of
  the generated header;
* refusals are judged by the exit code and the state of the disk.

The oracle is an executable reference model (`apgmc/model.py`, about 240
lines): widths, layouts, flattened items, identifier values, macros, images,
computed from the abstract bundle, independently of APG's code.  The model is
bound to the code because *every* enumerated state is replayed on the
implementation (evidence: `traces_validated_against_impl`), there is no
unvalidated abstract state space.  Two checks are direct explorations of the
implementation: C17 (a controlled scheduler of set iteration orders) and C18
(fault injection below the interpreter).

## Machinery

| file | what |
|---|---|
| `check.py` | entry: `check.py C01 quick`, `check.py C01 thorough`, `check.py --replay FILE` |
| `apgmc/engine.py` | enumeration, worker pool, confirmation, evidence, replay files |
| `apgmc/asn.py` | abstract bundles and their rendering as ASN.1 text |
| `apgmc/model.py` | reference model |
| `apgmc/runner.py` | runs the command line in a scratch folder |
| `apgmc/cprobe.py` | measuring programs for generated C |
| `apgmc/cosmos.py` | reader of COSMOS files |
| `apgmc/orders.py` | explorer of set iteration orders and directory listings (C17) |
| `apgmc/c/fault.c`, `apgmc/faultdrv.py` | fault injector and its driver (C18) |
| `apgmc/checks/cNN.py` | one module per property: `cases()` enumerates, `run()` judges |
| `known_findings.json` | recorded and repaired defects |

Runs happen in worker processes with the package loaded anew for every run
(runner.py), which costs 20 to 50 ms each; third party parsing of the constant
grammar text is remembered.  **Every alarm is confirmed** by repeating the case
with one fresh interpreter per command line, without any of this, before it is
reported; the replay file repeats exactly that.  Nothing is random: VERIF_SEED
only becomes the hash seed of the interpreter, so that different seeds also
exercise different orders.  No hooks in /repo are needed.

All effects stay in scratch folders below TMPDIR.  Runs of refused bundles and
of faults only ever get output folders inside such a folder.

## Properties

"""

WHY = {
    "C01": ("gcc", "Layout errors hide in combinations (a bitfield followed by "
            "a struct, an alias of a POSIX name inside an array, the third "
            "bitfield crossing a byte); the tests look at a handful of "
            "generated texts and never compile them together."),
    "C02": ("arithmetic on the range + gcc storing and reading back", "Off by "
            "one in a size computation only shows at 2^k of one particular "
            "k, one signedness and one generator."),
    "C03": ("reference model of flattening", "Wrong only for certain "
            "combinations of nesting, arrays and aliases."),
    "C04": ("reference model of annotations", "Leaks between neighbours need "
            "particular pairs of members."),
    "C05": ("the two generators against each other, C side measured by gcc",
            "No test compares the two outputs at all."),
    "C06": ("16 bit arithmetic", "All header values are enumerated "
            "(thorough); the tests have three."),
    "C07": ("reference macros, values compared in compiled C", "Subsets, "
            "orders and depths of components multiply quickly."),
    "C08": ("values of the compiled object against the specification",
            "as C07; also members that must be zero."),
    "C09": ("independently computed image; also read through the header and "
            "compared with generate-c's object", "Byte order, order of "
            "components and widths interact."),
    "C10": ("numbering rule", "Explicit numbers in any permutation with "
            "boundary sizes."),
    "C11": ("compile + layout equality over all orders; refusal of cycles; "
            "time limit", "The number of orders grows as n!."),
    "C12": ("compile in all include orders + layout; refusal of cycles",
            "Import graphs times file orders."),
    "C13": ("a defect makes the exit code non-zero, its absence zero",
            "One defect at one particular place of a larger bundle."),
    "C14": ("snapshot of the folders before and after", "Every refusal point "
            "times every state of the disk."),
    "C15": ("each packet as when requested alone; earlier bytes unchanged",
            "Shared state between packets of one run shows only for "
            "particular selections and orders."),
    "C16": ("artefacts with the comments stripped are equal / measured equal",
            "Every character at every comment position."),
    "C17": ("byte equality", "Iteration order of sets is fixed by the hash "
            "seed of one run; here it is a choice that is enumerated."),
    "C18": ("exit code against completeness of the artefacts; the next run "
            "equals an undisturbed one", "Needs a fault at a particular "
            "operation."),
    "C19": ("model of the folder: file -> content of the run that wrote it "
            "last", "Histories of runs over each other's output."),
    "C20": ("reference model of identifier values", "Same names at different "
            "depths, same types in several members and messages."),
}

TAIL = """
## Level

All properties are decided by exhaustive enumeration within the stated bounds
(`model_checking`), C18 by enumeration of faults (`fault_enumeration`).  None
is listed as not applicable.

## Defects found in APG

Repaired in /repo ("fix:" commits, the unedited tests pass), each found by the
check of the property named:

{fixed}

Recorded, not repaired (`known_findings.json`; a repair would be a design
decision of the maintainers):

{known}

## What is out of scope, and why

* Constructs that APG does not support and refuses loudly or documents as
  open: SEQUENCE OF as an alias, SEQUENCE OF a range written in place, alias
  of an alias, CHOICE in COSMOS, unbounded INTEGER/REAL, binary images with
  own aliases, imported types, BOOLEAN or strings, missing `--endianness`.
* Behaviour pinned by APG's tests although debatable: WITH COMPONENTS on a
  member of a built-in type is ignored; enumerations that mix numbered and
  unnumbered items.
* Not checked by APG and not claimed: duplicate member names, C keywords as
  names, equal item names in two enumerations, fixed values outside the range
  of a member (C, COSMOS), one component fixed at two levels.
* Nested SEQUENCEs that do not end on a byte: C pads them, COSMOS does not;
  the two cannot be compared there (C05 compares where they agree by
  definition).
* The documentation mentions uniqueness of packet numbers; APG has no such
  check, and cFS commands legitimately share message ids.
* generate-c's header has a tentative definition of the object (needs
  -fcommon when included twice), the msgids header uses `true`/`false` without
  including stdbool.h; the probes follow suit.
* generate-cosmos appends to an existing file; this is deliberate (README) and
  part of C15/C19.

## False alarms met and corrected

* C02 first demanded exact float round trips of REAL ends; a REAL range end
  need not be representable, the property is freedom from overflow.
* C04/C16 compared descriptions with trailing blanks; the grammar strips them.
* C05 first compared offsets behind members ending inside a byte.
* C07 demanded distinct macros for two members of the same type fixing the
  same component; APG's naming scheme cannot, the statement is about component
  names.
* C13 called WITH COMPONENTS on built-in types a defect; APG's tests pin it.
* Early versions kept the package loaded between runs; a change that caches
  per process was then reported by unrelated checks.  Runs now load it anew,
  and only C17 (earlier runs in the same process) judges that.

## Planted bugs

`seeded/<id>/` (patch, demonstration, meta).  Each keeps the 172 stable tests
passing.  Which checks report it (quick tier):

{matrix}
"""


def main():
    out = [HEAD]
    for line in open(os.path.join(V, "properties.jsonl")):
        p = json.loads(line)
        i = p["id"]
        m = importlib.import_module("apgmc.checks." + i.lower())
        oracle, why = WHY[i]
        ev = os.path.join(V, "tools", "costs.json")
        cost = json.load(open(ev)).get(i) if os.path.exists(ev) else None
        out.append(f"### {i} {p['title']}\n\n{p['statement']}\n\n"
                   f"* Enumerated (quick): {m.BOUNDS['quick']}.\n"
                   f"* Thorough: {m.BOUNDS['thorough']}.\n"
                   f"* Oracle: {oracle}.\n"
                   f"* Why tests cannot: {why}\n"
                   f"* Assumptions: "
                   f"{'; '.join(m.ASSUMPTIONS) or 'none'}.\n"
                   + (f"* Cost: {cost}\n" if cost else "") + "\n")
    kf = json.load(open(os.path.join(V, "known_findings.json")))
    fixed = "\n".join("* " + x.replace("fixed: property=", "")
                      for x in kf["fixed"])
    known = "\n".join(f"* {x['property']} `{x['key']}`: {x['what']}"
                      for x in kf["known"])
    mx = os.path.join(V, "tools", "matrix.json")
    rows = ["| bug | property | needs | reported by |", "|---|---|---|---|"]
    if os.path.exists(mx):
        for b, d in sorted(json.load(open(mx)).items()):
            rows.append(f"| {b} | {d['property']} | {d['needs']} | "
                        f"{', '.join(d['caught']) or '**none**'} |")
    out.append(TAIL.format(fixed=fixed, known=known, matrix="\n".join(rows)))
    with open(os.path.join(V, "DESIGN.md"), "w") as f:
        f.write("".join(out))


main()
