_T="TLA+ round state machine (spec/Round.tla) with TLC: validation of the implementation's records of generated and real logs (TraceRound)"
_N="Every record of every replayed round is compared by TLC with the state and options the specification derives. Bounded by the rounds generated; assumes the third-party mahjong library and that records are read through their public attributes."
INFO={p:(_T,_N) for p in "C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C20".split()}
_T2="TLA+ specification of the calls, their codes and action numbers (spec/Calls.tla): exhaustive model (MCCalls) and exhaustive conformance of the implementation's decoder and constructors (TraceCalls) with TLC"
_N2="All 65536 call codes and every call constructible from every claimed tile and source are compared by TLC with the specification. Exhaustive over its finite input space."
INFO.update({p:(_T2,_N2) for p in ("C01","C02","C03")})
INFO.update({
"C14": ("TLA+ specification of the output targets of one record (spec/Rows.tla) with TLC: validation of the targets and masks computed from real, generated and hand-built records",
        "Target and mask of every record are compared by TLC with the specification's. Bounded by the records generated."),
"C15": ("TLA+ specification of the input rows (spec/Rows.tla) and of the decision maker's view (spec/TraceRound.tla) with TLC: validation of what the model is given for every record",
        "Feature rows of every record compared by TLC, including pairs of records that differ only in hidden information. Bounded by the records generated."),
"C16": ("TLA+ specification of which tiles an encoder embeds where (spec/Embedding.tla) with TLC: validation of encoders with constant linear layers on real and random states",
        "Every embedded vector of every encoder is classified and compared by TLC. Bounded by the states sampled; linear layers replaced by zero so that vectors stay recognisable."),
"C17": ("TLA+ specification of reading log files (spec/Logs.tla) with TLC: validation of the implementation on variants of logs (truncated, reordered, unknown tags, foreign rules)",
        "Bounded by the log variants generated."),
"C18": ("TLA+ model of the data loader (spec/Loader.tla, MCLoader, exhaustive) with TLC, and trace validation of the real loader against it (TraceLoader)",
        "Model exhaustive for small archives; real loader bounded by the archives generated."),
"C19": ("TLA+ model of checkpointing with crashes at every file operation (spec/Checkpoint.tla, MCCheckpoint, exhaustive) with TLC, and validation of the real save/load/find against it, crashed at every file operation (TraceCheckpoint)",
        "Model exhaustive for small histories; the implementation is crashed at each of its file operations, histories sampled."),
"C21": ("TLA+ definition of the distance to a complete hand (spec/Distance.tla), checked against its meaning as a shortest path (MCDistance) with TLC, and validation of the implementation's distances (TraceDistance)",
        "Definition checked exhaustively on a small set of kinds; implementation compared on all one and two tile hands and thousands of random and structured hands."),
"C24": ("TLA+ specification of repeated use (spec/Repeat.tla) with TLC: sessions of reads, overwrites and fresh interpreters, generated exhaustively by TLC up to a length and replayed in the implementation",
        "Bounded by session length and the logs used."),
})
INFO.update({
"C22": ("TLA+ specification of the folder filter and of the download (spec/Acquire.tla; MCAcquire, and MCFilter with interruptions, exhaustive) with TLC, and trace validation of the two scripts run in scratch folders (TraceAcquire)",
        "Model exhaustive for small folders; scripts bounded by the folders, pages and response plans generated. requests is a stand-in."),
"C23": ("TLA+ specification of acceptable masks, masked scores and loss (spec/Masking.tla, MCMasking exhaustive) with TLC, and validation of calls of the decoders (TraceMasking)",
        "Bounded by the masks, weights and batches generated; probabilities formed in double precision by the harness."),
})
INFO.update({
"C25": ("TLA+ state machine of the training protocol (spec/Training.tla, MCTraining exhaustive) with TLC, and trace validation of the events of real training runs (TraceTraining)",
        "Model exhaustive for a few games; real training runs bounded by the archives generated, with a stand-in for the networks."),
"C26": ("TLA+ specification of scores as a function of weights and own input (spec/Scoring.tla) with TLC: validation of evaluations of the real models in varied batches and histories",
        "Bounded by the games, weights and batches generated; equality up to 1e-3."),
"C27": ("TLA+ specification of the models by name and of launches (spec/Catalogue.tla) with TLC: model checking, and validation of sequences of launches of the real trainer",
        "The forward pass of the networks is replaced by one that notes what it is given; models are told apart by the shapes of their parameters."),
"C28": ("TLA+ specification of what can reach the scores (spec/Influence.tla) with TLC: model checking of the dataflow, and validation of the influences measured on the real networks and of real training",
        "Influence is measured for a few random weights, games and histories; training is two iterations on a few games."),
})
INFO.update({
"C29": ("TLA+ specification of samples without repetition (spec/Sampling.tla, MCSampling exhaustive) with TLC, and trace validation of the rows used by hundreds of passes of the real models (TraceSampling)",
        "Model exhaustive for a few rows; uniformity of the implementation is decided statistically, within bounds that a uniform sampler leaves with a chance below 1e-12 per count."),
})
INFO.update({
"C30": ("TLA+ specification of renamings (spec/Symmetry.tla) with TLC: model checking that they commute with the transitions, options and views of spec/Round.tla, and validation of pairs of records of real logs and their renamings (TraceSymmetry)",
        "Model: generators of all renamings on the small rounds of MCRound. Each generated round is renamed once, by one part of a renaming or by all five at once. Rounds and deals left are not compared (C20 decides them)."),
})
