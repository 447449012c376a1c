c("B01", EX, ENUM, "Every value tree up to a node count over edge leaves and keys, wide and deep families and one-dimensional sizes up to a million; sizes beyond are extrapolated.")
c("B02", EX, ENUM, "As B01, compared byte for byte with an independent encoder.")
c("B03", MC, "explicit-state search of a pushdown recogniser of the grammar; every path and one-step error replayed on both decoders", "Every viable prefix and every word up to the stated lengths, plus every single-byte damage of the base documents; verdict and value are compared with an independent parser.")
c("B04", EX, ENUM, "Every word up to three bytes over all byte values and longer ones over the grammar alphabet, with overflow checks, a heap bound proportional to the input, a CPU watchdog and stress documents on an 8 MB stack.")
c("B05", EX, "bounded-exhaustive differential execution of the two decoders", "Every word and limit pair within the bounds.")
c("B06", EX, ENUM, "Every document within the bounds under every limit pair around its own depth and size.")
c("B07", MC, BFS, "Every accessor on every value within the bounds; mutation histories up to the depth bound, merged by model state, and every history up to a smaller depth.")
c("B08", FA, "exhaustive placement of sink faults on executions of the real encoder", "Every placement of up to the stated number of short, interrupted, refused and failed writes.")
c("C01", EX, ENUM, "Every shift amount on every edge id, single bit and byte pattern, against a bit-by-bit reference, with guard pages and canaries around the id.")
c("C02", EX, ENUM, "Every pair of ids of the families under every operator form and comparison, against bit-by-bit references.")
c("C03", MC, BFS, "Every history of insertions, clears and rebuilds to the depth bound over colliding keys, with the set of set bits as model state; every 16-bit index in both key positions.")
c("C04", EX, ENUM, "Every number of set bits in several arrangements and every byte value in every place, against the formula to a relative error of 1e-9.")
c("C05", EX, ENUM, "Every short byte string and text, longer ones over an alphabet and every single-character damage of long ones.")
c("C06", EX, ENUM, "Every message length to the bound over several contents, every address family, every slice length, against an independent SHA-1.")
c("C07", EX, "exhaustive enumeration of the answers of a controlled random source, adding exact probabilities", "Every answer of the random source for every bound of the families; every buffer size with every random word complemented.")
c("D01", EX, ENUM, "Every state within the bounds, directly and through bytes.")
c("D02", EX, ENUM, "Every value of the enumerated families in every place of a saved state.")
c("D03", EX, ENUM, "Every setting at every edge value, every pair at edge values and every combination of the switches.")
c("D04", EX, ENUM, "Every entry with every kind of value, alone and in pairs.")
c("D05", FA, "exhaustive placement of transfer faults on executions of the real address reader and writer", "Every placement of up to the stated number of short, interrupted, ended and failed transfers.")
for i, what in [("D06", "replies to peer queries"), ("D08", "the limits on torrents and peers"), ("D09", "the scrape filters"), ("D10", "item reads"), ("D11", "mutable items and their sequence numbers"), ("D12", "the choice of evicted items"), ("D13", "the counters")]:
    c(i, MC, BFS, "Every history up to the unmerged depth, every transition of every model state within the merged depth and larger single families, each replayed on a fresh store; decides " + what + ".")
c("D07", EX, "exhaustive enumeration of the answers of a controlled random source, adding exact probabilities", "Every number of peers, limit and seed pattern within the bounds.")
c("D14", EX, ENUM, "Every pair and set of ids of the families, against a bit-by-bit reference.")
c("D15", MC, BFS, "Every history up to the depth bounds; every target of the menu and every bit of an id.")
c("D17", EX, ENUM, "Every ascending sequence over a small domain to the bound with every value searched, for several element types.")
c("M01", EX, ENUM, "Every topic of the families in every spelling of a link, against a reference reader; printed and parsed again.")
c("M02", EX, ENUM, "Every sequence of parameters of the menu to the bound.")
c("M03", EX, ENUM, "Every selection list over small alphabets and every sequence of entries and lists to the bound.")
c("M04", EX, ENUM, "Every text of the families under a CPU watchdog, a heap bound and overflow checks.")
c("T01", EX, ENUM, "Every combination of field values, every list of files to the bound, orders and unknown entries.")
c("T02", EX, ENUM, "Every name and sequence of path elements to the bound.")
c("T03", EX, ENUM, "Every word to the bounds, every truncation and single-byte damage of base torrents, deep and wide documents on an 8 MB stack.")
c("T04", EX, ENUM, "Every size, depth, value count and piece count around each limit with the excess in every place.")
c("U01", EX, ENUM, "Every byte string and text to the bounds, against a bit-wise reference.")
c("U02", EX, ENUM, "Every text to the bounds, every escape over all byte pairs.")
c("U03", EX, ENUM, "Every text to the bounds under every separator.")
c("B09", EX, ENUM, "Every value tree and text of the families; sizes beyond are extrapolated.")
c("B10", EX, ENUM, "Every pair of errors with every byte, and every error of the decoders on every word within the bounds.")
c("B11", EX, ENUM, "Every pair of value trees of the families under every comparison.")
c("C08", EX, ENUM, "Every value of one byte within every pair of bounds, edge values of wider types.")
c("C09", EX, "exhaustive single-bit changes to a controlled random source", "Every bit of the random source changed in turn while up to the stated number of seeds is created; every byte in every place of the key types.")
c("D18", MC, BFS, "Every history to the unmerged depth and every transition of every small state, each replayed on a fresh state and followed by clearing.")
c("D19", MC, BFS, "Every history within the bounds, each followed by every kind of query with every unusable reply.")
c("D20", EX, ENUM, "Every subset of the key menu asked for every sequence of keys to the bound.")
c("D21", EX, ENUM, "All 256 sets of flags.")
c("M05", EX, ENUM, "Every sequence of parameters of the menu to the bound, and every short value of the parameters that can be refused.")
c("M06", EX, ENUM, "Every sequence of links of the menu to the bound, compared with a reference after each link.")
c("X01", EX, "exhaustive exploration of call histories, each in a process of its own", "Every sequence of two calls of the menu, every three of a crate (thorough: of all), repetitions to 5000 (thorough: 70000), whole-menu orders in every step width; every two and every returning pair of contents of one buffer or object filled or changed in place.")
c("D22", EX, "exhaustive exploration of interleaved histories of two stores", "Every interleaving of operations on two stores to the stated length under four pairs of limits, each compared with the same histories in processes of their own.")
c("U04", EX, ENUM, "Every text over brackets, colons, white space and digits to the bound and every byte in every place of sample endpoints.")
c("U05", EX, ENUM, "All 131072 sets of the seventeen flags with each flag added, removed and toggled; every number of one or two bits.")
