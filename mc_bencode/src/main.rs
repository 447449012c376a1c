//! Bounded-exhaustive checks of the bencode crate (properties B01 to B11).

mod b_access;
mod b_decode;
mod b_encode;
mod b_text;
mod gen;
mod mem;
mod model;

use engine::Prop;

#[global_allocator]
static ALLOC: mem::Counting = mem::Counting;

fn main() {
    engine::main(&[
        Prop {
            id: "B01",
            level: "exploration",
            rule: "every value tree of the families below, encoded and decoded by the real code in both representations and compared field by field; non-trivial when the tree has more than one node or a non-empty leaf; distinct by the tree",
            assumptions: &["values beyond the enumerated size behave like those within it"],
            run: b_encode::b01,
        },
        Prop {
            id: "B02",
            level: "exploration",
            rule: "every value tree of the families below, encoded by the real code and compared byte for byte with the reference encoder; non-trivial when the tree has more than one node or a non-empty leaf; distinct by the tree",
            assumptions: &["values beyond the enumerated size behave like those within it"],
            run: b_encode::b02,
        },
        Prop {
            id: "B03",
            level: "model_checking",
            rule: "every word over the grammar alphabet up to the length bound, every viable prefix of the reference recogniser (a pushdown automaton; its configurations are the model states) with every one-symbol continuation up to a larger bound, and every single-byte damage of the base documents; each is decoded by the real code and compared with the reference parser; trivial when the word is rejected and is not one symbol away from a viable prefix or a base document",
            assumptions: &["documents beyond the enumerated lengths behave like those within them"],
            run: b_decode::b03,
        },
        Prop {
            id: "B04",
            level: "exploration",
            rule: "every word of up to three bytes over all byte values, every word over the grammar alphabet up to the length bound, damaged documents and single-dimension stress documents, each decoded with overflow checks on and heap use measured against the input size; trivial when empty",
            assumptions: &["heap use is measured by the global allocator; stack use by running stress documents on an 8 MB stack"],
            run: b_decode::b04,
        },
        Prop {
            id: "B05",
            level: "exploration",
            rule: "every word of the families below, decoded by both decoders under every combination of limits listed; compared field by field; trivial when the word is not a viable prefix or a damaged document",
            assumptions: &["documents beyond the enumerated lengths behave like those within them"],
            run: b_decode::b05,
        },
        Prop {
            id: "B06",
            level: "exploration",
            rule: "every value tree of the families below, encoded by the reference encoder and decoded under every depth and item limit around its own depth and size; one case covers all limit pairs of one document; trivial when the document has one value and no container",
            assumptions: &["documents beyond the enumerated size behave like those within it"],
            run: b_decode::b06,
        },
        Prop {
            id: "B07",
            level: "model_checking",
            rule: "every accessor on every value tree of the families below with every key and index listed, and every sequence of mutations through mutable views up to the depth bound, against the reference tree; a model state is a tree reached by mutations; trivial when the value is a scalar",
            assumptions: &["values and histories beyond the bounds behave like those within them"],
            run: b_access::b07,
        },
        Prop {
            id: "B08",
            level: "fault_enumeration",
            rule: "every value of the list below encoded to a sink that answers each write in one of six ways, for every placement of up to the given number of faults; a case is one value in one representation with its first fault placed and fixed; trivial when no fault is placed",
            assumptions: &["a sink that failed once accepts later writes, so bytes written after a failure are seen"],
            run: b_encode::b08,
        },
        Prop {
            id: "B09",
            level: "exploration",
            rule: "every value tree of the families below shown as text and read back, and every text of the families below read and compared with decoding its bytes; trivial when the tree is shown in under four bytes or the text spells no value",
            assumptions: &["values and texts beyond the enumerated size behave like those within it"],
            run: b_text::b09,
        },
        Prop {
            id: "B10",
            level: "exploration",
            rule: "every pair of decode errors with every byte they can name, and every error the decoders report on the words of the families below, converted to an I/O error; trivial when the two errors are the same or decoding succeeds",
            assumptions: &[],
            run: b_text::b10,
        },
        Prop {
            id: "B11",
            level: "exploration",
            rule: "every pair of value trees of the families below compared by every operator in both representations, against a structural comparison; trivial when the two are equal",
            assumptions: &["values beyond the enumerated size behave like those within it; the order between kinds is read from one value per kind and required of all others"],
            run: b_text::b11,
        },
    ]);
}
