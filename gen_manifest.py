#!/usr/bin/env python3
"""Source of MANIFEST.json and known_findings.txt."""
import json,subprocess
NOTE={
"C01":"differential against the concatenation computed from the generated operands; stdout, stderr and status of the built binary",
"C02":"reference CRC written from the POSIX definition (bitwise), compared on generated contents of 0 to over 16 MiB",
"C03":"reference comparison of the two byte strings for every option",
"C04":"reference line splitter",
"C05":"the printed script is parsed and applied forwards and backwards to the generated files",
"C06":"reconstruction of both sequences, no line both removed and added in one gap, format agrees with the change list",
"C07":"validity of the printed order is checked against the relation (and metamorphic re-splitting); library and command",
"C08":"independent cycle detection; library and command",
"C09":"reference evaluator by argument count",
"C10":"reference lstat/stat of generated file-system trees",
"C11":"generated processes of an unprivileged user report the signals they get; the tool runs as that user",
"C12":"reference precedence rule on generated environments",
"C13":"reference option parser on generated declarations and vectors",
"C14":"reference matcher by sets of positions (a Thompson-style simulation)",
"C15":"patterns malformed by construction must be refused, well-formed ones accepted",
"C16":"stateful: edit histories against a byte-string model, contents compared after every step",
"C17":"stateful: command histories against a list-of-lines model",
"C18":"stateful: print and address histories against a list-of-lines model",
"C19":"stateful: histories mixing bad commands with good ones, against the model",
"C20":"histories with file commands against a model of buffer and files, plus a system call of the save made to fail (or ed killed at it, or a size limit set) by strace/prlimit",
"C21":"definitions generated from the grammar; status and recorded values compared with what was generated",
"C22":"definitions damaged so that they are malformed by construction must be refused; arbitrary text must end",
"C23":"fields compared with what was generated",
"C24":"operand lists with missing files, directories and failing reads at generated positions; outputs of the readable operands must be unaffected",
"C25":"generated argument vectors and inputs; status, crash traces and diagnostics are monitored",
"C26":"the same run with and without a fault: a read or the opening of an input made to fail by strace, standard output on a full device or cut off at a generated size",
"C27":"the same run from regular files and from pipes and FIFOs delivered in generated pieces (each read before the next is written); ed against its model; cat, head and ed with a writer that waits for their output",
"C28":"the tree of files (names, contents, modes, owners, links, times) before and after generated runs",
"C29":"metamorphic: the same run in generated surroundings",
"C30":"stateful: sequences of library operations on two editors against lists of lines",
"C32":"metamorphic: the same uses alone, in another order, and concurrently under the race detector",
"C31":"command lines that are wrong by construction must be refused with a status and a diagnostic",
}
TECH={p:"property-based testing (rapid generators, reference oracle, shrinking)" for p in NOTE}
for p in ("C16","C17","C18","C19","C30"): TECH[p]="stateful model-based property testing (rapid histories against a reference model)"
TECH["C20"]="stateful model-based property testing with generated system-call faults and kills (strace injection)"
TECH["C24"]="property-based testing with generated faults in operand lists"
TECH["C26"]="property-based testing with generated I/O faults (strace injection, full and limited output), differential against the fault-free run"
TECH["C27"]="metamorphic property testing over generated delivery schedules of the input"
TECH["C28"]="property-based testing: generated runs with an invariant over the file system"
TECH["C29"]="metamorphic property testing over generated environments, directories and streams"
TECH["C32"]="metamorphic property testing over generated sets of concurrent uses, with the race detector"
TECH["C22"]="grammar-based mutation fuzzing with a malformed-by-construction oracle"
TECH["C25"]="generative fuzzing of argument vectors and inputs with a crash and diagnostic oracle"
TECH["C05"]="property-based testing: the output is applied as a patch in both directions (round trip)"
M=dict(version=1,setup_cmd="python3 setup.py",
 checks=[dict(property=p,quick_cmd="python3 check.py "+p,thorough_cmd="VERIF_TIER=thorough python3 check.py "+p,
   evidence_file="evidence/%s.json"%p,technique=TECH[p],
   level="fault_enumeration" if p in ("C20","C24","C26") else "exploration",
   level_note="Search over generated cases, not a proof: "+NOTE[p]+". Trusts the oracle and generators in harness/, the Go toolchain and the kernel.")
  for p in NOTE],
 not_applicable=[],notes="No hooks in /repo: the checks build the commands and link the packages as they are (pkg/locale with one overlay file from /verif).")
json.dump(M,open('/verif/MANIFEST.json','w'),indent=1)

