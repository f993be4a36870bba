# per property: (why tests cannot settle it here and why this can, bounds, remarks: misses and refactorings seen in the mutation batches)
N = {
"C01": ("Tests name some dozens of scalars; the schema splits all texts into classes whose boundaries (a sign before a radix prefix, a leading zero, the last value of a width, a case variant) are what goes wrong. The classes include every literal the code itself compares with, so a new special case creates its own class.",
        "about 700 sample texts, one per class; texts of one class are taken to be treated alike.",
        "111 obligations on Number::from_str via `i128`/`u128` helper loops stay undecided."),
"C02": ("Whether a written string comes back as that string depends on the style chosen for its class; tests write a few.",
        "the same classes as C01, six syntactic positions.", "A text with a line feed becomes a literal block and is accepted as such."),
"C03": ("The text must read back as the same value for every value of twelve widths; the code is a finite set of paths to itoa and ryu.", "every width's boundaries, every float class.", ""),
"C04": ("Integer ranges of i64/u64/i128/u128 and float classes cannot be sampled; intervals cover them entirely.", "none for integers (intervals split at every boundary the code or the property names).", ""),
"C05": ("Coherence of Eq, Ord and Hash is a statement about pairs and triples of values.", "operand classes; mappings to two entries with an order-insensitivity rule for more.", ""),
"C06": ("Depth is a resource carried through hand-written save/restore code on about 40 paths; tests try one nesting shape.", "none: every hand-over site on every path.", ""),
"C07": ("Exponential alias expansion needs a counter that is shared, incremented and never reset on any path.", "two values of the counter.", ""),
"C08": ("Anchor redefinition needs particular histories; all histories of four nodes over two names are driven.", "four nodes, two names, two documents.", ""),
"C09": ("The product of input kinds, documents, failures and entry points has a few hundred cells, of which tests visit ten.", "none beyond the loader's interface.", ""),
"C10": ("Iteration is a history property: failure at every position and what follows it.", "four documents.", ""),
"C11": ("Histories of Serializer calls: all value shapes nested to depth three with exact or absent length hints.", "depth three, pairs of siblings.", ""),
"C12": ("As C11, for tags.", "as C11.", ""),
"C13": ("Fault positions: every call that can fail is made to fail on every path.", "none.", "A mutation that drops part of a buffer inside one write call is out of reach (`write-short`)."),
"C14": ("Whether an index, an unwrap or an unreachable! can fail depends on the text, the requested type and the history together; a test that has not thought of the combination never reaches it.",
        "the situations of the sixteen reading rules (document trees to depth 4, loader streams to four documents, about 700 scalar texts with multi-byte and one-character ones, every requested type); a panicking path no such situation reaches is listed as undecided, not as safe.",
        "An open condition on usize additions (counters) is an assumption, not a finding. Indexing by a position or a range is split into a succeeding and a panicking path in the engine; the panicking one counts only where the position certainly does not fit."),
"C15": ("An off-by-one or swapped field shows only with particular coordinates.", "samples told apart by zero/nonzero and equality.", "2 obligations undecided."),
"C16": ("Every error exit of about 60 functions must pass through the position fixer.", "none: every error path.", "`rec-mark` (position of a recursion-limit error moved) is not part of the property."),
"C17": ("Unsoundness needs particular bytes; the proof obligation is on paths, not inputs.", "sample scalars for the value part; the validity part has no bound.", ""),
"C18": ("Release and use order of C-style objects under every early return.", "none: every path of the wrappers.", ""),
"C19": ("A test suite contains only programs that compile.", "the 84 listed programs.", "Nothing of the crate or of the programs runs; `rustc --emit=metadata` decides."),
"C20": ("Two 1000-line deserializers must agree method by method.", "node kinds; containers to two levels.", ""),
"C21": ("Visitors that leave entries unread are rare in tests.", "containers to three entries, any number taken.", ""),
"C22": ("Duplicate detection must hold wherever the duplicate lies.", "inductive step of the loop for any map state.", ""),
"C23": ("Merging is recursive over arbitrary trees; the step is checked for each kind.", "one step for each kind, containers to two children, plus 'every child is visited'.", ""),
"C24": ("Accessors by kind and tag depth.", "tags to depth two (the loop is driven).", ""),
"C25": ("Map operations by presence.", "one key, present or absent.", ""),
"C26": ("About 215 forwarding methods, of which tests reach a few.", "17 000 value trees, 18 600 (document, type) pairs per module.", "`visit_enum` is absent from the recursive visitor upstream (a tagged Value read through it fails); the property does not ask for it."),
"C27": ("Every serde call into a Value, every integer region.", "17 000 value trees; whole integer ranges.", "A rewrite through `Mapping::entry(..).or_insert(..)` is reported as undecided, not as a violation."),
"C28": ("All pairs of tag spellings.", "zero to three marks.", ""),
"C29": ("Product of style, tag and text class.", "C01's classes times ten tags.", ""),
"C30": ("Each of about 90 deserializer methods on each node kind.", "containers to two levels.", ""),
}
