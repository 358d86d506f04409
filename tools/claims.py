BASE = ("TLA+ specification (spec/Cas*.tla); histories executed on the real library are checked by TLC as behaviours of the specification; all states and transitions of small spaces of operations are enumerated by TLC (spec/templ_mc.tla, CasMC.tla) and each transition is executed on the library")
A = "Bounded: every history the check executes is decided exactly by the specification; histories outside the generators' reach and beyond the explored depths are not. Trusts TLC, the drivers' encoding of values and the value-token tables."
CLAIMS = {p: (BASE, A) for p in "P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P15 P16 P17 P24".split()}
ENG = ("TLA+ specification (spec/Engine.tla); histories of engine calls executed on the real library with a traced annotator (its failures, views and languages scripted) are checked by TLC as behaviours of the specification; small spaces of calls and failures (spec/EngMC.tla) or of configurations are enumerated completely")
CLAIMS.update({p: (ENG, A) for p in "P18 P19 P20 P21 P23".split()})
PAR = ("TLA+ specification (spec/Params.tla); histories of parameter reads and writes executed on the real library through engines made from generated descriptors are checked by TLC as behaviours of the specification; a small space of descriptors is enumerated completely")
CLAIMS["P22"] = (PAR, A)
TS = ("TLA+ specification (spec/TypeSys.tla); histories of type definitions, descriptions and queries executed on the real library are checked by TLC as behaviours of the specification; small spaces of definitions (spec/TypeMC.tla) or of descriptions are enumerated completely")
CLAIMS.update({p: (TS, A) for p in "P01 P02".split()})
CLAIMS["P25"] = ("TLA+ specifications (spec/TypeSys.tla, Params.tla, Engine.tla); histories on engines and type systems made from descriptions the library wrote out and read back are checked by TLC as behaviours of the specification of the original description", A)
CLAIMS["P26"] = ("TLA+ specification (spec/Ustr.tla); every operation on every part of small texts, and random ones on longer texts, executed on the real library, are checked by TLC against the specification, and the laws between the operations on the specification", A)
CLAIMS["P27"] = ("TLA+ specification (spec/Log.tla); histories of logging calls, also by several threads at once, executed on the real library with recording loggers are checked by TLC as behaviours of the specification; a small space of operations is enumerated completely", A)
CLAIMS["P28"] = ("TLA+ specification (spec/Declared.tla); engines made by the real library from generated trees of descriptors and imported files are checked by TLC against the specification of the indexes, their contents and the type order these declare; small spaces of descriptors are enumerated completely", A)
CLAIMS["P29"] = ("TLA+ specification (spec/Err.tla); histories of messages, errors and exceptions, executed on the real library, are checked by TLC as behaviours of the specification; all messages with parameters around the sizes of buffers are enumerated", A)
NA = {}
