#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of finished checks."""
import json, os, re
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(here+"/properties.jsonl")]
DONE={
"C01":("stateless exploration of every operation history and panic point of the real code with drop-accounting elements","every choice sequence within the bounds below; dimensions and shapes up to the bound; one injected panic per execution"),
"C02":("exhaustive enumeration of access-path pairs, shapes and positions on the real code against a row-major reference list","all listed dimensions/shapes, all positions, all writer/reader pairs"),
"C03":("exhaustive exploration of source behaviours (lengths, resumption, nesting, interleavings) against a reference list model","source lengths and nesting up to the stated bounds"),
"C04":("exhaustive enumeration of operator forms, shapes and operand values against the element type's own operator","complete small alphabets of operands incl. uninterpreted elements; values outside the alphabets are reached only through the element-genericity of the code"),
"C05":("exhaustive enumeration of functions, broadcast kinds, positions and value tuples against the element type's own function","fixed alphabets of special and ordinary floats in both float types; thorough tier: all 2^32 f32 values where listed"),
"C06":("exhaustive enumeration of orderings (incl. incomparable elements) and truth patterns against a reference definition","all patterns over small alphabets up to the stated dimension"),
"C07":("exhaustive enumeration over complete small fields and symbolic elements against the textbook definition","complete small finite fields and a free non-commutative algebra"),
"C08":("exhaustive enumeration of all matrices over small finite fields against the algebraic laws","complete matrix spaces over F2, F3, F5 up to the stated size"),
"C09":("exhaustive enumeration of operands over finite fields and float lattices against the definitions","complete small fields; lattices of floats"),
"C10":("exhaustive enumeration of operand forms over finite fields and non-commuting symbols against Hamilton's rules","complete small fields; every operand form"),
"C11":("explicit-state exploration of the generated transformation groups and their actions on points, run on the real code","complete groups over small finite fields and float lattices"),
"C12":("exhaustive enumeration over dual numbers (exact derivatives) of all transformations, points and directions","complete small fields; dual-number elements"),
"C13":("exhaustive enumeration of transformations, surface points, tangents and normals on exact and float lattices","stated lattices"),
"C14":("exhaustive enumeration of an angle and axis lattice, pairs chained, against matrix and angle reference","stated lattices in both float types"),
"C15":("exhaustive enumeration of a direction lattice incl. branch boundaries and their neighbouring floats","stated lattices in both float types"),
"C16":("exhaustive enumeration of coefficient quadruples over complete small fields and complex/quaternion lattices","complete small fields; stated lattices"),
"C17":("exhaustive enumeration of generator word sequences (environment answers) driving the real samplers","all word sequences over the alphabet up to the horizon"),
"C18":("exhaustive enumeration of primitive values and component lattices against the definitions","all 8/16-bit values; lattices of floats"),
"C19":("exhaustive enumeration of values, format options and writer-fault points on the real formatter","stated values, all fault points"),
"C20":("exhaustive enumeration of component differences around the tolerance against the element type's own predicate","stated alphabets, each component deviating in turn"),
"C21":("exhaustive enumeration of sequences up to a length against a reference fold over non-commuting symbols","sequences up to the stated length"),
"C22":("exhaustive operation histories of the safe API executed under Miri, whose machine checks every step","histories up to the stated depth"),
"C24":("exhaustive exploration of call histories, nestings, panics and two-thread interleavings of the real code, each in a process of its own, against the answers of fresh processes","all ordered pairs of the calls, short sequences within an operation, preemption bound 1 (quick) or 2 (thorough)"),
"C23":("exhaustive product of feature configurations and calls, compared by full result transcripts","all 8 feature combinations"),
}
have=lambda i: os.path.exists(f"{here}/mc/src/bin/{i.lower()}.rs") if i not in("C22","C23") else os.path.exists(f"{here}/{i.lower()}.sh")
checks=[];na=[]
for p in props:
    i=p["id"]
    if have(i):
        t,n=DONE[i]
        checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","evidence_file":f"evidence/{i}.json","technique":"model checking: "+t,"level":"model_checking","level_note":"Bounded: "+n+". The real compiled code is the transition relation; no separate model is trusted."})
    else: na.append({"property":i,"reason":"check not built yet"})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na,"notes":"see DESIGN.md; known findings in known-findings.txt"}
json.dump(m,open(here+"/MANIFEST.json","w"),indent=1); open(here+"/MANIFEST.json","a").write("\n")
print(len(checks),"checks",len(na),"n/a")
