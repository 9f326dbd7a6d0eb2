GT = ("TLA+ specification of grammars, LALR(1) construction, conflict resolution and the parsing machine (TLC): the real generators' "
      "output compiled, run and every table / step / outcome validated against the specification's transitions")
GN = ("For each grammar explored the specification builds the automaton itself and TLC compares exhaustively (every state and token) "
      "or step by step (parses); the grammars and texts are classics plus seeded random ones, so beyond them it is a sample. Trusts TLC, "
      "the grammar renderer and the recording runtime.")
for n in list(range(1, 10)) + [17, 19, 22, 23, 26]:
    T["C%02d" % n] = (GT, GN)

LT = ("TLA+ specification of the specification language (SpecLang: declarations, faults, warnings; parsing with the tables the "
      "specification of LALR(1) builds from the documented grammar), checked by TLC against what the real front ends made of generated "
      "documents and token sequences")
LN = ("Documents are random sequences of declarations in arbitrary layout with faults at known places; token sequences are sound ones "
      "mutated. TLC decides for each what must, may and must not be diagnosed and where. Beyond those it is a sample. Trusts TLC, the "
      "document generator's record of places and the reference tokenizer.")
for n in (18, 24): T["C%02d" % n] = (LT, LN)
T["C20"] = (LT + "; the tables of the shipped and of the regenerated front end compared state by state with the automaton and each other",
            "The comparison of tables is exhaustive (every state, token and production of both front ends); that of actions is by putting "
            "thousands of texts to both. Trusts TLC and the table reader.")
CT = ("TLA+ specification of the programs and library as file system transitions (Cli), model-checked exhaustively over small worlds "
      "(CliMC: no clobbering, faithful status, no trace of failures), and histories of the real programs validated step by step")
CN = ("TLC explores every history over 5 paths and 7 contents; real runs cover a random selection (thorough: all) of option and file "
      "state combinations plus random histories. Trusts TLC and the snapshots taken of the scratch directory.")
for n in (21, 25): T["C%02d" % n] = (CT, CN)
