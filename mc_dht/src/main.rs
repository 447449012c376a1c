//! Bounded-exhaustive checks of the dht crate (properties D01 to D15, D17 to D22).

mod extra;
mod items;
mod peers;
mod small;
mod store;
mod twin;

use engine::Prop;

fn main() {
    engine::main(&[
        Prop {
            id: "D01",
            level: "exploration",
            rule: "every combination of short lists of ids and contacts, every port, every byte value of every field and longer lists, saved and restored directly and through bytes; trivial when the state is empty",
            assumptions: &["lists longer than those enumerated behave like them"],
            run: small::d01,
        },
        Prop {
            id: "D02",
            level: "exploration",
            rule: "every value of the families below as the whole state, as each section and as each entry, compared with a reference reader; trivial when nothing is recognised in the value",
            assumptions: &["values beyond the enumerated families behave like them"],
            run: small::d02,
        },
        Prop {
            id: "D03",
            level: "exploration",
            rule: "every setting at every edge value, every pair of settings at edge values and every combination of the switches, saved and restored directly and through bytes; trivial for the defaults",
            assumptions: &["saving and restoring treats settings in combinations of three or more like in pairs"],
            run: small::d03,
        },
        Prop {
            id: "D04",
            level: "exploration",
            rule: "every entry with every kind of value, alone and in pairs, with unknown entries around, compared with a reference reader; trivial when the value names no setting",
            assumptions: &["entries in combinations of three or more are read like in pairs"],
            run: small::d04,
        },
        Prop {
            id: "D05",
            level: "fault_enumeration",
            rule: "every placement of up to the stated number of short, interrupted, ended or failed transfers while an address of the families below is read or written; trivial for transfers without a fault",
            assumptions: &["faults are those a reader or writer may report by its contract"],
            run: small::d05,
        },
        Prop {
            id: "D06",
            level: "model_checking",
            rule: "every history of operations up to the unmerged depth, every transition of every model state within the merged depth, and the larger families below, each replayed on a fresh store; after it every kind of query is compared with the model; trivial when no peer is listed",
            assumptions: &["histories and tables larger than those enumerated behave like them; a state the model merges is the same state for the store; random numbers are the lowest, middle or highest"],
            run: peers::d06,
        },
        Prop {
            id: "D07",
            level: "exploration",
            rule: "every sequence of answers of the random source for every number of peers, reply limit and pattern of seeds within the bounds, adding up the exact probability of each peer; trivial when all or none are listed",
            assumptions: &["more peers than enumerated are sampled like them"],
            run: peers::d07,
        },
        Prop {
            id: "D08",
            level: "model_checking",
            rule: "every history of operations up to the unmerged depth, every transition of every model state within the merged depth, and the larger families below, each replayed on a fresh store under every pair of limits; contents and the answer of every query are compared with the model; trivial when the store is empty",
            assumptions: &["histories and tables larger than those enumerated behave like them; a state the model merges is the same state for the store"],
            run: peers::d08,
        },
        Prop {
            id: "D09",
            level: "model_checking",
            rule: "every history of operations up to the unmerged depth, every transition of every model state within the merged depth, and the larger families below, each replayed on a fresh store; both filters are compared with filters built from the model; trivial when no peer matches",
            assumptions: &["histories and tables larger than those enumerated behave like them; a state the model merges is the same state for the store"],
            run: peers::d09,
        },
        Prop {
            id: "D10",
            level: "model_checking",
            rule: "every history of operations up to the unmerged depth, every transition of every model state within the merged depth, and the larger families below, each replayed on a fresh store; every target is read with replies of every kind; trivial when nothing is stored",
            assumptions: &["histories and tables larger than those enumerated behave like them; a state the model merges is the same state for the store"],
            run: items::d10,
        },
        Prop {
            id: "D11",
            level: "model_checking",
            rule: "every history of operations up to the unmerged depth, every transition of every model state within the merged depth, and the larger families below, each replayed on a fresh store; every target is read with every asking number around the stored one; trivial when nothing is stored",
            assumptions: &["histories and tables larger than those enumerated behave like them; a state the model merges is the same state for the store"],
            run: items::d11,
        },
        Prop {
            id: "D12",
            level: "model_checking",
            rule: "every history of operations up to the unmerged depth, every transition of every model state within the merged depth, and the larger families below, each replayed on a fresh store, under several orders of the hash maps; the model allows every eviction of a least important item",
            assumptions: &["histories and tables larger than those enumerated behave like them; a state the model merges is the same state for the store; announcing addresses do not collide in the counting filter"],
            run: items::d12,
        },
        Prop {
            id: "D13",
            level: "model_checking",
            rule: "every history of operations up to the unmerged depth, every transition of every model state within the merged depth, and the larger families below, each replayed on a fresh store; the counters are compared with what queries find stored; trivial when nothing is stored",
            assumptions: &["histories and tables larger than those enumerated behave like them; a state the model merges is the same state for the store"],
            run: items::d13,
        },
        Prop {
            id: "D14",
            level: "exploration",
            rule: "every pair of ids and every set of ids of the families below, compared with a bit-by-bit reference; trivial for identical ids",
            assumptions: &["the exponent depends on the two ids through the bits in which they differ"],
            run: small::d14,
        },
        Prop {
            id: "D15",
            level: "model_checking",
            rule: "every history of operations up to the unmerged depth, every transition of every model state within the merged depth, and the larger families below, each replayed on a fresh store; the name in every kind of reply is compared with the model; trivial when no torrent is named",
            assumptions: &["histories and tables larger than those enumerated behave like them; a state the model merges is the same state for the store"],
            run: peers::d15,
        },
        Prop {
            id: "D17",
            level: "exploration",
            rule: "every ascending sequence over a small domain up to the stated length with every value searched, for several element types; trivial for the empty sequence",
            assumptions: &["sequences longer than those enumerated behave like them"],
            run: small::d17,
        },
        Prop {
            id: "D18",
            level: "model_checking",
            rule: "every history of additions, clearings and reloads up to the unmerged depth, and every transition of every state with at most two entries per list followed by clearing; a model state is the three lists; trivial when nothing is cleared",
            assumptions: &["longer lists behave like those enumerated"],
            run: extra::d18,
        },
        Prop {
            id: "D19",
            level: "model_checking",
            rule: "every history of announcements up to the unmerged depth and every transition of every model state within the merged depth; after it every kind of query is made with every unusable reply listed; trivial when no torrent is known",
            assumptions: &["histories longer than those enumerated behave like them"],
            run: extra::d19,
        },
        Prop {
            id: "D20",
            level: "exploration",
            rule: "every message holding a subset of the key menu asked for every sequence of keys, messages that are no dictionary, and larger ones with each key missing in turn; trivial when no key is asked for",
            assumptions: &["key descriptions without kind, size and flags, the only ones the code acts on, are built through a hook"],
            run: extra::d20,
        },
        Prop {
            id: "D21",
            level: "exploration",
            rule: "every set of observer flags, with each flag added and removed; trivial for none",
            assumptions: &[],
            run: extra::d21,
        },
        Prop {
            id: "D22",
            level: "exploration",
            rule: "every interleaving of operations on two stores up to the stated length, roomy and tight, both alive or one after the other; every answer of each store compared with that of the same history alone in a new process; trivial when only one is used",
            assumptions: &["stores that share something show it in histories as short as those enumerated"],
            run: twin::d22,
        },
    ]);
}
