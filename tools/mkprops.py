#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it after editing)."""
import json, os
L="src/linear_gkr/"; T="src/traditional_gkr/"
P=[]
def p(id,title,st,over,text,why,files,mech,obs=(),state=()):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(obs),hook_needed=None)))

p("C01","Linear GKR: an honest proof of any well-formed circuit is accepted",
"For every well-formed layered circuit (any mix of add, multiply, dummy, summation, NOT, minus, XOR, NAAB and relay gates, any power-of-two layer widths including one-gate layers, any depth), every input and every challenge value, the linear-time prover and its verifier run to completion and report Pass. This includes degenerate challenges (zero, one, repeated values) and circuits whose adjacent layers have different widths.",
["inputs","programs","configurations"],"all circuits, inputs and verifier challenges",
"The tests run a few generated families (random add/mul, matmul, lanczos, SHA) with one fixed challenge stream; most gate-type/width combinations and special challenges are never run.",
[L+"verifier_fast_track.cpp",L+"prover_fast_track.cpp",L+"main_fast_track.cpp"],
[("sumcheck rounds and final checks",L+"verifier_fast_track.cpp verify()"),("bookkeeping tables",L+"prover_fast_track.cpp sumcheck_phase1_init/phase2_init/update")],
["stdout of the linear program","every message exchanged between prover and verifier"])
p("C02","Circuit evaluation follows the gate definitions in every prover",
"For every circuit and input (signed 64-bit integers in the file, negative ones standing for their residue modulo the prime), the value each prover computes for every gate of every layer, and hence the claimed output, is the one the circuit-format documentation defines for that gate type over the prime field: sum, product, zero, x-y, 1-x, x+y-2xy, y-xy, copy, and the sum of the previous layer's gates u..v-1; the zero-knowledge prover additionally supports sums weighted by consecutive powers of two and the bit test x(1-x). Values stay exact when they exceed the field size.",
["inputs","programs"],"all circuits and inputs, in the linear, per-copy, blocked, multi-threaded and zero-knowledge provers",
"No test looks at a computed gate value; a wrong gate semantics shared by prover and verifier would still print Pass.",
[L+"prover_fast_track.cpp",L+"zk_prover.cpp",L+"prover_fast_para_track.cpp",T+"prover_clogc.cpp",T+"prover_bc_clogc.cpp"],
[("evaluate()",L+"prover_fast_track.cpp"),("evaluate()",L+"zk_prover.cpp"),("evaluate()",T+"prover_clogc.cpp"),("evaluate()",T+"prover_bc_clogc.cpp")],
["values of all layers after evaluation"])
p("C03","Linear GKR verifier accepts exactly the transcripts whose checks all hold",
"Whatever messages a prover sends, the linear verifier reports Pass if and only if every sumcheck round, every per-layer final equation and the input equation hold for the circuit and input it read; one wrong message at any layer, phase, round or coefficient, of any magnitude, is rejected. In particular a prover that lies about the output, about any intermediate layer's values, about the wiring of any gate, or about the input is rejected.",
["fault_sequences","inputs","programs"],"all message sequences a prover can send, all circuits",
"Every test uses the honest prover, so no rejecting path is ever executed: deleting any check keeps all tests green.",
[L+"verifier_fast_track.cpp",L+"main_fast_track.cpp"],
[("round checks, semi-final check, input check",L+"verifier_fast_track.cpp verify()"),("gate predicates",L+"verifier_fast_track.cpp add()..relay_gate(), beta_init(), V_in()")],
["verdict printed by the program for a given transcript"])
p("C04","Linear prover's messages are exactly the sumcheck messages of the circuit",
"In every layer, phase and round, the polynomial sent by the linear-time prover is the partial sum, over all remaining Boolean assignments, of the layer's gate relation with the already received challenges substituted, and the two values it sends at the end of a layer are the multilinear extension of the previous layer's values at the two challenge points. This holds for every circuit, input and challenge, whether or not a verifier would notice a difference.",
["inputs","programs","configurations"],"all circuits, inputs, challenges, rounds",
"Tests only look at the final verdict for a handful of circuits, not at the messages.",
[L+"prover_fast_track.cpp"],[("phase 1/2 tables and folding",L+"prover_fast_track.cpp")],["polynomial returned in every round","final evaluations of every layer"])
p("C05","Challenges are fresh and never reach a prover before the message they test",
"In every interactive protocol (linear, per-copy, blocked, multi-threaded) each challenge is an independent fresh draw of its run: no challenge is constant, reused between rounds, layers or between the two evaluation points, or derived from another, and each ranges over at least 2^80 values, except the documented zero challenge for the copy layer of the linear protocol. A prover never receives a challenge, or anything determined by it, before it has sent the message that challenge tests, and the challenges given to the prover are those the verifier uses.",
["histories","programs","configurations"],"all runs on all circuits",
"With an honest prover constant, reused or early challenges never change a verdict, so tests cannot see it.",
[L+"verifier_fast_track.cpp",L+"verifier_fast_para_track.cpp",T+"verifier_traditional.cpp",T+"verifier_bc_clogc.cpp",L+"prime_field.cpp"],
[("generate_randomness and the order of prover calls",L+"verifier_fast_track.cpp verify()"),("same",T+"verifier_traditional.cpp"),("same",T+"verifier_bc_clogc.cpp")],
["sequence of calls made to the prover and their arguments"])
p("C06","Field and polynomial arithmetic is exact arithmetic modulo the fixed prime",
"For all canonical field elements, addition, subtraction, multiplication, comparison and construction from integers (negative ones by their residue) give the canonical result modulo the fixed 254-bit prime, values below 2^508 (a sum of two products plus a few elements) reduce exactly, and random elements are canonical. Sums, products and evaluations of the degree 1 to 5 polynomial types agree with polynomial algebra over that field, and conversion to strings, bit streams and big integers preserves the value.",
["inputs"],"all operand values, in particular those at limb and modulus boundaries",
"The tests never exercise the arithmetic directly; carries and final corrections that depend on rare limb patterns are hit with negligible probability.",
[L+"prime_field.cpp",L+"polynomial.cpp"],[("Barrett reduction, limb arithmetic",L+"prime_field.cpp"),("eval and operators",L+"polynomial.cpp")],["results of field and polynomial operations"])
p("C07","Circuit files are read faithfully by every program",
"Every program that reads a circuit description obtains exactly the layers, gate types, wiring and inputs written in the file, whatever the white space and line layout; a layer with a single gate is padded with one dummy gate; the linear and zero-knowledge programs insert exactly one layer copying the inputs, and the zero-knowledge program attaches the data-parallel layout given in the companion file. The second operand of a NOT gate is ignored.",
["inputs","programs"],"all well-formed circuit files",
"Tests feed files of a few generators and never look at the circuit that was read.",
[L+"verifier_fast_track.cpp",L+"zk_verifier.cpp",L+"verifier_fast_para_track.cpp",T+"verifier_traditional.cpp",T+"verifier_bc_clogc.cpp"],
[("read_circuit",L+"verifier_fast_track.cpp"),("read_circuit",L+"zk_verifier.cpp"),("read_circuit_from_FILE",T+"verifier_traditional.cpp"),("read_circuit",T+"verifier_bc_clogc.cpp")],
["circuit held by prover and verifier after reading"])
p("C08","Per-copy GKR: honest proofs are accepted and messages are exact",
"For every add/multiply/dummy circuit, input, number of copies and challenges, the per-copy traditional protocol accepts the honest prover for every copy, and every round polynomial and end-of-layer value the prover sends is exactly the partial sum, respectively multilinear extension, that the circuit defines.",
["inputs","programs","configurations"],"all circuits, inputs, copy counts and challenges",
"Tests run two copy counts on a few circuits with one challenge stream and look only at the verdict.",
[T+"prover_clogc.cpp",T+"verifier_traditional.cpp",T+"bclogc.cpp"],[("sumcheck_phase1/2_update",T+"prover_clogc.cpp"),("verify",T+"verifier_traditional.cpp")],["stdout","round polynomials"])
p("C09","Per-copy GKR: a bad transcript in any copy makes the run fail",
"Whatever messages a prover sends, the per-copy verifier accepts a copy if and only if all round, layer and input equations hold for the circuit it read, at both evaluation points of the input; the program reports a pass only if every copy was accepted. A lie in a single copy, layer, round or coefficient makes the program report failure.",
["fault_sequences","inputs","programs"],"all message sequences, in any copy",
"All tests use honest provers; no rejecting path is executed.",
[T+"verifier_traditional.cpp",T+"bclogc.cpp"],[("verify",T+"verifier_traditional.cpp"),("conjunction over copies",T+"bclogc.cpp")],["verdict printed"])
p("C10","Blocked GKR: honest proofs are accepted and messages are exact",
"For every add/multiply/dummy circuit, input and power-of-two number of parallel copies, the blocked traditional protocol accepts the honest prover for every challenge, and every message it sends (cubic polynomials over the copy index, quadratic polynomials over the wires, the end-of-layer values) is exactly the partial sum, respectively multilinear extension over copies and wires, that the replicated circuit defines.",
["inputs","programs","configurations"],"all circuits, inputs, copy counts and challenges",
"Tests run two copy counts on a few circuits with one challenge stream and look only at the verdict.",
[T+"prover_bc_clogc.cpp",T+"verifier_bc_clogc.cpp",T+"bc_clogc.cpp"],[("sumcheck_phase0/1/2",T+"prover_bc_clogc.cpp"),("verify",T+"verifier_bc_clogc.cpp")],["stdout","round polynomials"])
p("C11","Blocked GKR verifier accepts exactly the transcripts whose checks all hold",
"Whatever round polynomials and end-of-layer values a prover sends, the blocked verifier accepts if and only if every copy-index round, wire round, layer equation and the input equation over all copies hold; a lie about the output, any intermediate value in any copy, a gate, or the input of any copy is rejected.",
["fault_sequences","inputs","programs"],"all message sequences a prover can send",
"All tests use honest provers; no rejecting path is executed.",
[T+"verifier_bc_clogc.cpp",T+"bc_clogc.cpp"],[("verify",T+"verifier_bc_clogc.cpp")],["verdict printed"])
p("C12","Zero-knowledge GKR: honest proofs are accepted for every circuit",
"For every circuit the zero-knowledge program supports (all gate types including power-of-two weighted sums and bit tests, data-parallel and plain layers) and every input, the honest run completes, all commitment openings verify and the program reports success, and its decision equations use exactly the wiring of the circuit, so that the shortcut evaluation for data-parallel layers equals the plain one.",
["inputs","programs","configurations"],"all circuits, data-parallel layouts, inputs and masks",
"The zero-knowledge program cannot be linked in the test environment; no test runs it.",
[L+"zk_prover.cpp",L+"zk_verifier.cpp",L+"main_zk.cpp","src/VPD/inputvpd.cpp","src/VPD/vpdR.cpp","src/VPD/vpd_test.cpp"],[("verify",L+"zk_verifier.cpp"),("sumcheck and masks",L+"zk_prover.cpp")],["verdict","messages of the prover"])
p("C13","Zero-knowledge verifier rejects every transcript that violates an equation",
"The zero-knowledge verifier accepts if and only if every masked round equation, every per-layer final equation, every mask-commitment check and opening and the input-commitment opening hold; changing any single message of an otherwise honest proof that enters one of these equations, at any layer, phase or round, makes it report failure.",
["fault_sequences","inputs","programs"],"all single deviations from an honest transcript, at every message",
"No test runs the zero-knowledge verifier, and none sends a bad message.",
[L+"zk_verifier.cpp"],[("verify",L+"zk_verifier.cpp")],["verdict"])
p("C14","Zero-knowledge messages are masked with fresh randomness",
"Every polynomial the zero-knowledge prover sends in a layer is the plain sumcheck polynomial plus rho times the partial sums of that layer's own mask polynomial, and every value it claims about a layer is shifted by the layer's own mask (scaled by the product of x(1-x) over the point). All mask coefficients and all blinding values of commitments and openings are fresh draws of the random generator for every layer, commitment and opening, independent of the witness; so two runs on the same input with different randomness share no masked message.",
["inputs","histories"],"all inputs, layers and rounds",
"Removing or reusing a mask changes no verdict; nothing tests it.",
[L+"zk_prover.cpp"],[("generate_maskpoly_*, generate_maskR, mask evaluation in updates",L+"zk_prover.cpp")],["messages of the prover","mask draws"])
p("C15","Polynomial commitments open to the committed polynomial's value and no other",
"For each of the three commitment schemes (multilinear input, sumcheck mask, small mask), for every polynomial and evaluation point, commit, open and check succeed with the true value; the check fails for any other claimed value, for a proof or commitment that was altered in any component, and for an evaluation point different from the one opened.",
["inputs","fault_sequences"],"all polynomials, points, numbers of variables and single alterations of proof or commitment",
"The commitment code is not built or run by any test.",
["src/VPD/inputvpd.cpp","src/VPD/vpdR.cpp","src/VPD/vpd_test.cpp"],[("commit/open/verify",f) for f in ("src/VPD/inputvpd.cpp","src/VPD/vpdR.cpp","src/VPD/vpd_test.cpp")],["accept/reject of the check functions"])
p("C16","Fiat-Shamir challenges and the proof file depend on every recorded message",
"Every prover message of the zero-knowledge protocol is recorded before the challenge that tests it is drawn. Every challenge is determined by, and changes with, every message recorded before it, in order: identical histories give identical challenges, and histories with the same kinds of messages that differ in any bit of any message give different ones. The proof file contains exactly the recorded prover messages (not challenges or public statement) in the order they were sent, and its reported size is the number of bytes written.",
["histories","inputs"],"all message histories",
"Nothing runs the transcript code.",
["include/linear_gkr/transcript.h","include/infrastructure/my_hhash.h",L+"zk_verifier.cpp"],[("push/random/output_to_file","include/linear_gkr/transcript.h"),("hash","include/infrastructure/my_hhash.h")],["challenge sequence","proof file"])
p("C17","Generated matrix-multiplication circuits compute the matrix product",
"For every supported size, the circuit written by each of the matrix-multiplication modes of the circuit generator is well-formed and, for every assignment of its inputs read as two row-major matrices, its output layer holds the entries of their product in row-major order; the layered and blocked modes write well-formed circuits of the requested depth and width, and the layout files describe the real repetition structure.",
["inputs","configurations"],"all sizes and inputs",
"Tests only check that a proof for the generated circuit passes, which holds for any circuit.",
["bin/gen.cpp"],[("modes 0-5","bin/gen.cpp")],["circuit file written"])
p("C18","Translating an arithmetic constraint program to a circuit preserves meaning",
"For every straight-line constraint program (inputs, additions, multiplications; for the SHA translator also XOR, NAAB, minus and NOT), every number of repetitions and every range description, the circuit written by the lanczos and the SHA translator is well-formed, and its last layer holds, over the prime field, exactly the values of the program's deepest variables for every repetition, by increasing variable number and repetition (zero elsewhere), where input k of repetition r is range-description output r*n+k (n program inputs); whatever the fan-out, repeated operands, the depth differences between operands, the numbering of variables and the constants used.",
["programs","inputs"],"all programs in the accepted format",
"The tests translate one generated program and only check that a proof about the resulting circuit passes.",
["parser_lanczos.cpp","parser_sha.cpp"],[("layering, relay insertion, padding","parser_lanczos.cpp"),("layering, relay insertion, padding","parser_sha.cpp")],["circuit file written"])
p("C19","The SHA data-parallel translator preserves meaning and declares a true layout",
"For every program in the format accepted by the data-parallel translator (inputs, +, *, XOR, NAAB, minus, NOT and inclusive range sums SS) and every power-of-two number of repetitions, the circuit it writes is well-formed; block r of its last layer holds exactly the values of the program's deepest variables, by increasing variable number (zero elsewhere), when input k is range-description output r*n+k (n program inputs); and the layout file it writes describes the real repetition structure of each layer (every repeated layer is the block declared, shifted once per repetition, with true sizes and logarithms).",
["programs","inputs","configurations"],"all accepted programs and repetition counts",
"The tests only translate one generator's output and check that a proof about it passes; the layout file is read by the untested zero-knowledge program only.",
["parser_sha_data_parallel.cpp"],[("layering, replication, meta file","parser_sha_data_parallel.cpp")],["circuit file and layout file written"])
p("C20","Multi-threaded prover: same exact messages under every thread schedule",
"For every add/multiply/dummy circuit, input and challenges, and under every interleaving of its worker threads, the multi-threaded prover sends exactly the messages the circuit defines, so its honest runs are always accepted and never depend on timing.",
["schedules","inputs","programs"],"all interleavings of the worker threads, all circuits, inputs and challenges",
"The multi-threaded prover is compiled but never linked or run, and no test controls thread timing.",
[L+"prover_fast_para_track.cpp",L+"verifier_fast_para_track.cpp"],[("work splitting and joins",L+"prover_fast_para_track.cpp")],["round polynomials under forced schedules"])
p("C21","The SHA-256 and Merkle tree generator writes exactly the constraints of SHA-256",
"The constraint program written by the SHA-256 generator (SS read as the value of a bit vector, least significant bit first, as the generator means it) has outputs that, for every assignment of its inputs by field elements, are exactly the constraints of one SHA-256 compression: all outputs are zero for the witness of every message and chaining value, and whenever all outputs are zero the output words are the compression of the message words. The Merkle range description gives the repetitions of that program, for every tree size and option, exactly the wiring of the tree: constants in place, round constants, initial values and their bits shared by all blocks, the message of every inner block (words and bits) taken from the outputs of its two children in order, the given root on the last block (which fills the odd repetition), no other sharing and nothing unconnected, public inputs first and, when padding is on, private inputs starting at the power of two that bounds their number.",
["inputs","configurations"],"all messages, chaining values and dishonest assignments; all tree sizes and options",
"Tests only check that a proof about the translated circuit passes, which holds for any circuit: nothing tests that the circuit is SHA-256.",
["bin/sha256gen_merkle.py"],[("write_64_rounds","bin/sha256gen_merkle.py"),("write_merkle_rdl","bin/sha256gen_merkle.py")],["generated program and range description"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
