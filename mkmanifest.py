#!/usr/bin/env python3
import json, pathlib
T="deterministic simulation with fault injection: seeded search over simulated executions, "
N={
"C01":("every signature of simulated histories verified by the library and by a reference","steered random streams reach rejected attempts, exact fits and large coefficients"),
"C02":("network faults and exact-norm forgeries against a reference verifier","acceptance compared on both sides of every decision boundary met"),
"C03":("hostile bytes between guard pages and under ASan/UBSan","detects out-of-bounds access beyond pages or redzones and dependence on leftovers; undefined behaviour the sanitizers cannot see is not excluded"),
"C04":("codec histories against reference codecs","two recorded findings (bit order of key fields) are printed and tolerated"),
"C05":("store/crash/restart/reload histories with twin signatures on one stream","old artefacts are fixtures made by the unmodified tree"),
"C06":("key generation on steered streams checked by exact integer arithmetic","few runs, since one key costs seconds"),
"C07":("entropy failures at every point of seeding","error kinds are those std::random_device can report"),
"C08":("bit flips of the delivered entropy","influence measured on the generator's first output bytes"),
"C09":("cooperative scheduler pre-empting caller threads at any basic block","sequentially consistent interleavings at basic-block granularity; weak-memory effects not modelled"),
"C10":("operation histories compared with fresh processes","ambient state varied: memory, addresses, clock, failed predecessors"),
"C11":("scripted random streams against a reference sampler with error bounds","values within floating-point error of the threshold are not judged"),
"C12":("recorded and steered streams replayed through a reference signer","cases where rounding may decide are counted as ambiguous and not judged"),
"C13":("hostile streams and inputs under step budgets","budgets are generous multiples of honest cost"),
"C14":("storage faults on secret keys followed by signing","success must verify under the key's own g/f"),
"C15":("signing histories with salts traced to generator bytes","uniqueness over each simulated history"),
"C20":("chosen heap allocations of every operation refused","on this tree only key generation allocates; GMP's own reaction (abort) counts as fail-stop"),
"C21":("heap memory and entropy sources held after each repetition of successful, refused and aborted operations","a footprint that grows with every repetition is reported; memory kept once, as by a cache, is not")}
checks=[dict(property=k,quick_cmd="./check %s quick"%k,thorough_cmd="./check %s thorough"%k,technique=T+a,level="exploration",
  level_note="Holds on every simulated execution of the run (seeded, repeatable; counts in the evidence file), no claim beyond; "+b+". Trusts the compiler, the simulator's Keccak and its reference model.") for k,(a,b) in N.items()]
R="Pure function of its operands: no schedule, clock, random stream, storage, peer or fault its result could depend on, so there is nothing for a simulator to control or inject. "
na=[dict(property="C16",reason=R+"Deciding it means enumerating operand pairs, another technique."),
    dict(property="C17",reason=R+"Deciding it means algebraic proof or input generation, another technique."),
    dict(property="C18",reason=R+"Deciding it means comparing with exact arithmetic on chosen operands, another technique."),
    dict(property="C19",reason=R+"A string conversion.")]
pathlib.Path(__file__).with_name("MANIFEST.json").write_text(json.dumps(dict(version=1,setup_cmd="./check --setup",checks=checks,not_applicable=na,notes="No hooks in /repo: all seams are link-time, compiler or header seams (DESIGN.md section 1)."),indent=1)+"\n")
