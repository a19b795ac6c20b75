#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENUM = "explicit enumeration of a bounded input space on the real code, lock-step with a reference model"
BFS = "explicit-state exploration of operation histories on the real code, lock-step with a reference model"
FAULT = "explicit-state exploration with exhaustive allocation-fault placement on the real code"
MEM = "the same exploration under ASan/UBSan with an accounting allocator"
T = dict(C01=ENUM, C02=ENUM, C03=ENUM+"; setter histories", C04=ENUM, C05=BFS, C06=BFS, C07=FAULT,
  C08="explicit-state: every state x setter x argument of a bounded space, lock-step with a reference grammar", C09=ENUM+"; all iterator walks", C10=BFS, C11=ENUM+"; all iterator walks", C12=ENUM,
  C13=BFS+"; "+MEM, C14="explicit-state exploration of all allocation sequences and URL histories on all small pools (ASan/UBSan)",
  C15=ENUM, C16="exhaustive enumeration of bounded inputs on the real code under ASan/UBSan", C17=FAULT,
  C18="exhaustive enumeration of component products x setter orders on the real code", C19=ENUM,
  C20=BFS, C21="exhaustive enumeration of one bounded space in every build configuration, trace digests compared",
  C22=ENUM, C23=ENUM+"; heap and address monitor",
  C24="stateless exploration of thread schedules on the real code under a controlled scheduler with dynamic partial-order reduction (every memory access observed)")
N = dict(
 C01="Every string of the listed spaces (all strings to a stated length over several alphabets, all 256 byte values at every position of templates, all IPv6 shapes) is decided; longer or differently shaped strings are outside the bound. Trusts the reference grammar in mc/ref.hpp (recursive descent on the RFC 3986 ABNF).",
 C02="As C01, for every accepted string of the spaces and every observer.",
 C03="All bounded IPv4/IPv6/IPvFuture/reg-name hosts by every route that sets a host.",
 C04="All byte strings to length 2 (3 in thorough over a reduced alphabet) for each setter and segment edit; all encoded components of the alphabet spaces.",
 C05="Every state of the component product x every setter x every argument of the alphabet; result string and all observers predicted by the model.",
 C06="All operation histories to the stated depth from every start state, successful or throwing; oracle is re-parsing the object's own string plus the reference grammar.",
 C07="Every state x operation x allocation index; snapshots of string and observers compared.",
 C08="Every state class x every argument string of the bounded argument spaces.",
 C09="All bounded paths in all contexts, all iterator walks to the stated length.",
 C10="All edits at all positions/ranges on all bounded paths in all contexts, and sequences of edits.",
 C11="All bounded queries in all contexts, all iterator walks to the stated length.",
 C12="All bounded queries x all bounded keys.",
 C13="All histories to the stated depth under ASan/UBSan with an accounting allocator.",
 C14="All pool sizes, alignments and typed allocation sequences to the stated depth; the only assumption is that the pool never reuses memory.",
 C15="All byte strings to length 3 and all case/one-byte mutations of the names.",
 C16="All inputs of the spaces in exact-size heap blocks under ASan/UBSan, with a hang watchdog.",
 C17="All pairs of states, follow-up operations on either side, every failing allocation.",
 C18="All component products x all orders of setters.",
 C19="All URLs of the spaces, all byte values in schemes.",
 C20="Every state x every modification of the alphabets; refused iff the model says the result is ambiguous.",
 C21="Ten configurations (fifteen in thorough); the compared records contain every observer and exception type.",
 C22="All enumerators x all conditions, and all failing calls of the alphabets.",
 C23="All inputs of the spaces with the global heap counted and every returned view's address checked.",
 C24="All pairs of calls of the alphabets on two objects and all pairs of observers on one, two threads; schedules without conflicting accesses form one equivalence class (reported if they conflict), orders of synchronisation operations enumerated with up to two switches.")
checks = [dict(property=p, quick_cmd="python3 run.py %s --quick" % p, thorough_cmd="python3 run.py %s --thorough" % p,
  technique="model checking: " + T[p], level="model_checking", level_note=N[p]) for p in sorted(T)]
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=[],
  notes="No hooks in /repo. Each check compiles the library from /repo's working tree into a scratch directory.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json"))); print("valid")
except ImportError: pass
