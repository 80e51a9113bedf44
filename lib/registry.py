"""property -> (module, function, level)"""
CHECKS = {
    "C01": ("lines", "c01", "model_checking"),
    "C02": ("lines", "c02", "model_checking"),
    "C03": ("lines", "c03", "model_checking"),
    "C04": ("detect", "c04", "model_checking"),
    "C05": ("detect", "c05", "model_checking"),
    "C06": ("detect", "c06", "model_checking"),
    "C07": ("detect", "c07", "model_checking"),
    "C08": ("index", "c08", "model_checking"),
    "C10": ("report", "c10", "model_checking"),
    "C09": ("store", "c09", "model_checking"),
    "C11": ("files", "c11", "model_checking"),
    "C12": ("files", "c12", "model_checking"),
    "C13": ("web", "c13", "model_checking"),
    "C14": ("cache", "c14", "model_checking"),
    "C15": ("zuul", "c15", "model_checking"),
    "C16": ("tokens", "c16", "model_checking"),
    "C17": ("tokens", "c17", "model_checking"),
    "C18": ("render", "c18", "model_checking"),
    "C19": ("cli", "c19", "model_checking"),
    "C20": ("gz", "c20", "model_checking"),
    "C21": ("zuul", "c21", "model_checking"),
    "C22": ("cli", "c22", "model_checking"),
    "C23": ("cli", "c23", "model_checking"),
    "C24": ("bindings", "c24", "model_checking"),
    "C25": ("remote", "c25", "model_checking"),
}

_L = ("TLA+ model checking (TLC) of the buffered iterator against the definition of the lines; replay of TLC-generated "
      "inputs at the real constants and TLC validation of recorded runs")
_D = ("TLA+ model checking (TLC) of the chunked inspection against the streaming definition; replay of TLC-generated sources at the real "
      "constants (512 lines, 5120 lines, 3 lines) and TLC validation of recorded random inspections")
_DN = ("Exhaustive in the model for all sequences of 5 classes and the marker up to length 7-10 and several chunk sizes; in the real code all short "
       "sequences, all sequences around the chunk boundaries, and random long ones. Indexes that mix json, plain and compressed files (spec/Modes.tla).")
NOTES = {
    "C01": (_L, "Exhaustive in the model for all inputs up to 6-8 characters and all read sizes; every short input under every read split, and all "
                "combinations of boundary lengths, replayed in the real iterator. Trusts TLC and the small-scope hypothesis between them."),
    "C02": (_L, "As C01, for the line numbers."),
    "C03": (_L, "Every failure position of every generated input; termination as a liveness property of the model; large repeated inputs with the memory measured."),
    "C04": (_D, _DN), "C05": (_D, _DN), "C06": (_D, _DN), "C07": (_D, _DN),
    "C08": ("TLA+ definition of the distance; TLC checks the chunked search against it for all partitions and orders; replay of TLC-generated baselines "
            "and targets through every search interface; TLC validation of recorded random searches",
            "All sets of up to 3 baselines over 3-4 words and all targets, every partition and order; larger ones sampled. Words are chosen without hash collision."),
    "C10": ("TLA+ model checking (TLC) of the report loop against the definition of the account; real reports on TLC-generated trees, whose account is "
            "computed by TLC for the observed order of the sources",
            "All combinations of 7 sets of baselines and 6 states (absent, anomalous, clean, failing half way, unopenable, long) of 3 (quick) or 4 (thorough) sources."),
    "C09": ("TLA+ model checking (TLC) of the file life cycle; all its histories replayed with real models and reports, real truncations and real write failures",
            "All histories of save, failing save, truncation, replacement, removal and load up to 4 (sampled, quick) or 5 operations; every truncation and write failure point of a file (thorough)."),
    "C11": ("TLA+ definition of the identity of a path; the index names of all TLC-generated paths must induce the same equivalence; lookup checked by "
            "model checking the report loop and by real reports on TLC-generated trees",
            "About 8000 generated paths (parents, hash directories, digits, rotations, compressions, pods); lookup as C10."),
    "C12": ("TLA+ model checking (TLC) of the directory walk on all small trees with links; real listings of TLC-generated trees",
            "Every tree of 5-6 nodes in the model; each ignored and look-alike name, and all combinations of files, links, other kinds of entries and directories on disk."),
    "C13": ("TLA+ model checking (TLC) of the worker pool, shared visited set, channel and iterator over all small sites and interleavings; replay of TLC-generated "
            "sites and response orders against the real crawler through a loopback server that holds the answers back",
            "All sites of 3 directories and 1-2 files, all failures and interleavings of 2-3 workers in the model; hundreds to thousands of sites and response orders in the real "
            "crawler. The races inside the visited set are only sampled in the real code."),
    "C14": ("TLA+ model checking (TLC) of the cache (inodes, names, pending files, concurrent writers and readers, crashes); all its short histories and simulated long ones "
            "replayed on the real cache, each in a process of its own, with real crashes and a real full disk",
            "All histories of 6 (quick) or 8 operations of two writers, a reader, two urls and a listing in the model; thousands of histories of up to 30 operations on the real cache."),
    "C15": ("TLA+ definition of the best baseline and model checking (TLC) of the lazy discovery against it; TLC-generated lists of builds served by a loopback api to the real "
            "discovery, and TLC validation of the recorded discoveries of random lists",
            "All lists of 2 (quick) or 3 builds over 96 kinds in the model; all builds differing by two fields, pairs, triples, lists of 400 builds, failing replies and the cache in the real code."),
    "C21": ("TLA+ definition of the decodable replies and of the build pages; all the TLC-generated urls and replies given to the real code, whose requests reach a loopback server",
            "Every field with every class of values, alone and with a second field; every way to break a reply; about 4000 urls (prefixes, tenants, keywords, uids, queries)."),
    "C16": ("TLA+ specification of the tokenizer on words made of atoms, and of the shapes of the volatile fields; TLC checks that all the shapes of a field give the same abstract tokens; "
            "concrete lines generated from them must have equal tokens in the real tokenizer",
            "36 kinds of fields in 16 contexts, 17000 (quick) or 117000 words of up to three atoms or long chains, with random concrete values; lines of several fields; spaces and quotes sampled."),
    "C17": ("TLA+ specification of the tokenizer on words made of atoms and of the noise lines; TLC checks that the ordinary words are kept; concrete lines generated from them are given to "
            "the real tokenizer, in two orders and on two threads",
            "All words of two atoms, of three short (quick) or any atoms, and chains of up to 7, with 10 separators; all lines of four words over the vocabulary of each noise; all strings of three character classes and long repetitions."),
    "C18": ("TLA+ definition of the rows and of the escaped page with its reader; TLC checks that the reader finds every text back; pages rendered by the real code for the TLC-generated lists of "
            "anomalies, parsed as HTML",
            "All texts of 4-5 characters of 8 classes in the model; about 35000 lists of up to three anomalies with hostile texts in the real code, and arbitrary reports."),
    "C19": ("TLA+ model checking (TLC) of the live loop against the definition of its output; the command line run as an unprivileged user on TLC-generated trees, its output compared "
            "with the one TLC computes",
            "All worlds of 2 (quick) or 3 sources in the model; 1200 to 6000 trees with unreadable and failing sources, piped and on a terminal, with and without a page; the list of invalid inputs is finite."),
    "C20": ("TLA+ model checking (TLC) of the decoder and line reader on all small streams, cut or damaged anywhere, against the definition of the decodable lines; files generated "
            "by TLC with their expected lines, cut at every byte, damaged, split in members, given to the real reader; reports on plain and compressed trees compared",
            "All files of up to 2 members of 2 blocks (quick) or 3 and 4 in the model and in the real reader with every truncation point; about 1000 (quick) or 12000 reports on random contents; remote files excluded."),
    "C22": ("TLA+ model checking (TLC) of the evaluation loop against the definition of a passing dataset; the evaluation command run on TLC-generated datasets, whose verdict TLC computes",
            "All pairs of small datasets in the model; every list one change away from the exact one, every missing or broken file, lists of up to 4 datasets, and targets over several chunks in the real command."),
    "C23": ("TLA+ model checking (TLC) of the commands, step by step, against the definition of the life of the model file; its histories run with the real command line, each step compared "
            "with what TLC computes, and the model file checked to be written or untouched",
            "All histories of 5 (quick) or 7 steps of 17 operations in the model; 900 (quick) or all histories of 3 steps, and random ones of up to 14 steps in the real command line."),
    "C24": ("TLA+ model checking (TLC) of the handles of the python module; its histories run in a python interpreter with the real module, each answer compared with the one TLC computes; "
            "recorded generate answers validated by TLC",
            "All histories of 5 calls in the model (faulty variants must be rejected); all of up to 4 calls and random ones of 10 or 12 in the real module, with handles of both kinds and foreign ones."),
    "C25": ("TLA+ definition of what a run on remote logs asks, shows and leaves in the cache; TLC model checks a run step by step against it while the server changes; the command line "
            "run on TLC-generated histories of a loopback server, whose recorded requests TLC follows and whose output it computes",
            "All changes of the server between the steps of 2-3 runs on 1-2 logs in the model (faulty variants must be rejected); 560 (quick) or 5900 histories of 3-4 real runs on three logs, "
            "with failing, cut and changing answers, in three encodings. Redirected roots are excluded."),
}
