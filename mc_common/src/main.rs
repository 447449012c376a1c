//! Bounded-exhaustive checks of the common crate (properties C01 to C09).

mod bloom;
mod hexes;
mod ids;
mod misc;
mod rng;
mod sha;

use engine::Prop;

fn main() {
    engine::main(&[
        Prop {
            id: "C01",
            level: "exploration",
            rule: "every id of the families below shifted by every amount listed, in both directions, compared with a bit-by-bit reference; each shift is also done with the id fenced by canaries and against unmapped memory on both sides; trivial when the shift amount is 0 or the id is zero",
            assumptions: &["a stray access of more than 512 bytes beyond the id is not looked for"],
            run: ids::c01,
        },
        Prop {
            id: "C02",
            level: "exploration",
            rule: "every pair of ids of the families below under every operator form and comparison, against bit-by-bit references; one case is one pair; trivial when both ids are zero",
            assumptions: &["operators act on each byte position alike up to the position pairs enumerated"],
            run: ids::c02,
        },
        Prop {
            id: "C03",
            level: "model_checking",
            rule: "every history of insertions, clears and rebuilds up to the depth bound over keys chosen to collide, with the set of set bits as model state, and every 16-bit index in both key positions; trivial when nothing was inserted",
            assumptions: &["keys beyond those enumerated act through their two 16-bit numbers only, which are all enumerated"],
            run: bloom::c03,
        },
        Prop {
            id: "C04",
            level: "exploration",
            rule: "every number of set bits in several arrangements, every byte value in every byte position, compared with the formula to a relative error of 1e-9; trivial for the empty filter",
            assumptions: &["the estimate depends on the set bits only through their number in the arrangements enumerated"],
            run: bloom::c04,
        },
        Prop {
            id: "C05",
            level: "exploration",
            rule: "every byte string of up to two bytes, longer ones over the alphabet below, and every single-character damage of long digit strings, encoded and decoded by the real code and compared with a reference; trivial when empty",
            assumptions: &["strings beyond the enumerated lengths behave like those within them"],
            run: hexes::c05,
        },
        Prop {
            id: "C06",
            level: "exploration",
            rule: "every message of the families below hashed and compared with an independent SHA-1; every slice length and every byte value in every position for ids from bytes; trivial when empty",
            assumptions: &["messages beyond the enumerated lengths behave like those within them"],
            run: sha::c06,
        },
        Prop {
            id: "C07",
            level: "exploration",
            rule: "every answer of the random source for every bound of the families below, with the exact probability of each resulting value; every buffer size with every random word complemented; trivial for bound 1 and the empty buffer",
            assumptions: &["the random source is reached through the rand crate, whose place the script takes"],
            run: rng::c07,
        },
        Prop {
            id: "C08",
            level: "exploration",
            rule: "every value of one byte within every pair of bounds of one byte, and every edge value of wider types, floating point numbers and texts within every pair of edge bounds; one case is one pair of bounds; trivial when the bounds are equal",
            assumptions: &["values that cannot be compared with the bounds are left aside"],
            run: misc::c08,
        },
        Prop {
            id: "C09",
            level: "exploration",
            rule: "every single bit of the random source changed while seeds are created one after the other, and every byte value in every place of a key, secret or signature; trivial when no seed is created",
            assumptions: &["the random source is reached through the rand crate, whose place the script takes"],
            run: misc::c09,
        },
    ]);
}
