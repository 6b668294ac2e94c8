import p_history, p_input, p_compl, p_events, p_cli, p_flow, p_num, p_io, p_rt, p_ls, p_defs
AI = "abstract interpretation of MIR with class-invariant inference"
EF = "call-graph effect analysis of MIR"
PROPS = {
    "X01": (p_flow.effects, "other", EF),
    "X02": (p_flow.locks, "other", "lock-region and lock-order analysis of MIR"),
    "X03": (p_flow.unfinished, "other", "reachability over the call graph of MIR"),
    "X04": (p_flow.determinism, "other", "call-graph query for schedule- and order-dependent constructs"),
    "X05": (p_flow.values, "other", "type-structure, unsafe-code and provenance queries on MIR"),
    "X06": (p_num.numbers, "other", "interprocedural taint analysis of MIR"),
    "S01": (p_io.contained, "other", "abstract interpretation of path values in MIR"),
    "R01": (p_rt.batch, "other", "typestate analysis by abstract interpretation of MIR"),
    "X07": (p_rt.waiting, "other", "ownership and loop-exit queries on MIR"),
    "L01": (p_ls.positions, "other", "abstract interpretation of MIR with inferred loop equalities"),
    "L02": (p_ls.documents, "other", "typestate analysis by abstract interpretation of MIR"),
    "L03": (p_ls.replies, "other", "typestate analysis by abstract interpretation of MIR"),
    "D01": (p_defs.definitions, "other", "typestate analysis by abstract interpretation of MIR"),
    "H01": (p_history.history, "proof", AI),
    "C01": (p_compl.request, "proof", AI),
    "C02": (p_compl.recv, "proof", AI),
    "C03": (p_compl.highlight, "proof", AI),
    "C04": (p_compl.engine, "proof", AI),
    "E01": (p_events.events, "proof", AI),
    "T01": (p_events.theme, "proof", AI),
    "A01": (p_cli.cli, "proof", AI),
    "I01": (p_input.edit, "proof", AI),
    "I02": (p_input.bytepos, "proof", AI),
    "I03": (p_input.moves, "proof", AI),
}
