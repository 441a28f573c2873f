"""Writes MANIFEST.json from the table below.  Usage: python3 tools/manifest.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TRACE = "TLA+ trace validation with TLC"
CLAIMED = {
    "C01": ("TLC enumerates small messages replayed on the Python codec; encodings of generated schemas validated "
            "against the codec spec",
            "exhaustive for all structs of up to two fields over a library of field kinds (three value variants each); "
            "sampled schemas and values beyond"),
    "C02": ("TLC-enumerated messages decoded by the Python codec; decodes of generated schemas validated against the "
            "codec spec",
            "exhaustive for all structs of up to two fields over a library of field kinds; sampled beyond"),
    "C03": (TRACE + " of C++ full codec runs (build, encode, decode)",
            "sampled schemas (field kind pairs in random contexts, random nesting) and values; g++ x86-64 with sanitizers"),
    "C04": (TRACE + " of the sizes, alignments, stiffness and paddings prophyc, Python and C++ publish",
            "all types of sampled schemas incl. every pair of field kinds; lengths of sampled encodings"),
    "C05": (TRACE + " of C++ sizes and encoders in exact heap blocks",
            "sampled schemas and values incl. overfilled limited arrays; bounds observed by AddressSanitizer"),
    "C06": (TRACE + " of Python decodes of damaged encodings",
            "token-aware faults (counts, flags, discriminators, truncation, extension, flips, noise) on sampled "
            "schemas and values; memory by tracemalloc, time by alarm"),
    "C07": (TRACE + " of C++ decodes of damaged encodings in exact heap blocks",
            "token-aware faults on sampled schemas and values; ASan, UBSan and a metered allocator observe safety"),
    "C08": (TRACE + " of offsetof/sizeof tables printed by compiled headers",
            "sampled schemas; every member of every struct, part and union in them; GCC x86-64 ABI"),
    "C09": (TRACE + " of in-place swaps in guarded buffers",
            "sampled schemas and values; two known findings are probed separately"),
    "C10": ("TLC enumerates operation histories replayed on the Python API; " + TRACE + " of random histories",
            "exhaustive to depth 3 (thorough: 4) over menus for 35 small message types; sampled histories on sampled "
            "schemas beyond; arguments of supported kinds"),
    "C11": (TRACE + " of histories with copy_from and extend over several live messages",
            "sampled schemas and histories; after every operation all live messages are compared with the spec's heap"),
    "C12": ("TLC enumerates definitions with their legality, replayed in prophyc, Python, the runtime library and g++; "
            + TRACE + " of programs with one edit",
            "every struct, union and enum of up to two members (structs: three from a smaller menu) over a library of "
            "definitions; sampled programs with one of 27 edits in one or several files and isar; sampled awkward names; "
            "one known finding (macro names)"),
    "C13": ("TLC enumerates configurations of the pipeline with their outcomes, replayed in prophyc; " + TRACE + " of runs on "
            "corrupted inputs",
            "all configurations of up to two files of 27 (isar: 24) kinds, up to three targets, ten bad options and five "
            "patches; sampled token-, structure- and byte-level corruptions in prophy, isar, sack, patches and options; "
            "40 s stand for not terminating"),
    "C14": ("TLC enumerates expressions with their values, replayed in prophyc, generated Python and compiled C++; "
            + TRACE + " of random programs",
            "every expression structure of up to 4 operands, one pair of parentheses and one unary minus (thorough: two of "
            "each); sampled programs in prophy and isar; values within 64 bits"),
    "C15": ("TLC enumerates definition sets and input orders, replayed in prophyc; " + TRACE + " of random sets",
            "all acyclic sets of 3 definitions of every kind and of 4 (thorough: 5) structs in all orders; sampled sets of up "
            "to 40 definitions, isar and sack"),
    "C16": ("TLC enumerates file arrangements replayed in prophyc; " + TRACE + " of random arrangements and partitions",
            "all arrangements of up to 6 files in 4 directories with decoys, cycles and missing files; sampled partitions of "
            "sampled schemas; C++ for a part of them"),
    "C17": ("TLC enumerates patch scripts with their outcomes, replayed in prophyc; " + TRACE + " of codecs generated from "
            "isar and patches",
            "all scripts of up to two rules from a menu of 105 over seven definitions; sampled scripts, schemas, isar "
            "forms and values beyond; differences shared with the prophy language are not counted"),
    "C18": (TRACE + " of str() in Python and print() in C++",
            "sampled schemas and values; floats limited to values both languages spell alike (known finding otherwise)"),
    "C19": (TRACE + " of encoding pairs from both codecs, incl. messages decoded from littered padding",
            "sampled schemas and values; little-endian host"),
    "C20": ("TLC enumerates include graphs and command lines, replayed under varied hash seeds, directories and processes; "
            + TRACE + " of digests of all outputs",
            "all include graphs of 3 (thorough: 4) files with all ordered selections of inputs; sampled multi-file schemas "
            "in prophy, isar with patches and sack; 11 process environments"),
}
PENDING = "check under construction"


def main():
    ids = [json.loads(line)["id"] for line in open(os.path.join(ROOT, "properties.jsonl"))]
    checks = [{"property": p, "quick_cmd": "bash check.sh %s" % p, "thorough_cmd": "bash check.sh %s" % p,
               "evidence_file": "evidence/%s.json" % p, "technique": CLAIMED[p][0],
               "level": CLAIMED[p][2] if len(CLAIMED[p]) > 2 else "model_checking", "level_note": CLAIMED[p][1]}
              for p in ids if p in CLAIMED]
    doc = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
           "not_applicable": [{"property": p, "reason": PENDING} for p in ids if p not in CLAIMED],
           "notes": "Specification in spec/ (TLA+, TLC); harness in lib/vp; see DESIGN.md."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
