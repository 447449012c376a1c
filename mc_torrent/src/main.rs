//! Bounded-exhaustive checks of the torrent crate (M01 to M06, T01 to T04,
//! U01 to U04) and of all crates together (X01).

mod links;
mod magnet;
#[path = "../../mc_bencode/src/mem.rs"]
mod mem;
mod meta;
mod pure;
mod text;

use engine::Prop;

#[global_allocator]
static HEAP: mem::Counting = mem::Counting;

fn main() {
    let beyond: &[&str] = &["inputs beyond the enumerated families behave like those within them"];
    engine::main(&[
        Prop {
            id: "M01",
            level: "exploration",
            rule: "every topic of the families below in a link of every spelling, compared with a reference reader, and printed and parsed again; trivial never",
            assumptions: beyond,
            run: magnet::m01,
        },
        Prop {
            id: "M02",
            level: "exploration",
            rule: "every sequence of parameters of the menu up to the stated length, before and behind the topic, in every spelling, every port and every character, compared with a reference reader; trivial without parameters",
            assumptions: beyond,
            run: magnet::m02,
        },
        Prop {
            id: "M03",
            level: "exploration",
            rule: "every selection list of the families below, alone and several in a link, compared with a reference reader; lists with entries whose treatment is unspecified may also be refused",
            assumptions: beyond,
            run: magnet::m03,
        },
        Prop {
            id: "M04",
            level: "exploration",
            rule: "every text of the families below parsed under a CPU watchdog, with overflow checks and a heap bound proportional to the text",
            assumptions: &["texts beyond the enumerated families behave like those within them", "a case that burns 20 s of CPU time does not end"],
            run: magnet::m04,
        },
        Prop {
            id: "T01",
            level: "exploration",
            rule: "every combination of field values of the families below, every list of files up to the stated length, in several orders and with unknown entries, compared with what was written",
            assumptions: beyond,
            run: meta::t01,
        },
        Prop {
            id: "T02",
            level: "exploration",
            rule: "every name and every sequence of path elements of the families below; accepted paths are walked component by component",
            assumptions: &["inputs beyond the enumerated families behave like those within them", "paths are those of this platform"],
            run: meta::t02,
        },
        Prop {
            id: "T03",
            level: "exploration",
            rule: "every input of the families below parsed under a CPU watchdog, with overflow checks and a heap bound proportional to the input; deep and wide documents in a process of their own on an 8 MB stack",
            assumptions: &["inputs beyond the enumerated families behave like those within them", "a case that burns 20 s of CPU time does not end"],
            run: meta::t03,
        },
        Prop {
            id: "T04",
            level: "exploration",
            rule: "torrents of every size, depth, value count and piece count around each limit, with the excess in every place of the document; within one unit of a limit either answer will do",
            assumptions: beyond,
            run: meta::t04,
        },
        Prop {
            id: "U01",
            level: "exploration",
            rule: "every byte string of the families below spelled in base32 in every way and decoded, every text with a foreign character; trivial when empty",
            assumptions: beyond,
            run: text::u01,
        },
        Prop {
            id: "U02",
            level: "exploration",
            rule: "every byte string of the families below, compared with a reference; trivial when empty",
            assumptions: beyond,
            run: text::u02,
        },
        Prop {
            id: "U03",
            level: "exploration",
            rule: "every text of the families below under every separator, compared with a reference; trivial when empty",
            assumptions: beyond,
            run: text::u03,
        },
        Prop {
            id: "U04",
            level: "exploration",
            rule: "every text of the families below that cannot be an endpoint, with the error it must be refused with; texts that may be endpoints are not run, reading those is not implemented; trivial never",
            assumptions: beyond,
            run: text::u04,
        },
        Prop {
            id: "U05",
            level: "exploration",
            rule: "every set of the seventeen flags, every flag added to, removed from and toggled in it, every number of one or two bits; trivial for the empty set",
            assumptions: &[],
            run: text::u05,
        },
        Prop {
            id: "M05",
            level: "exploration",
            rule: "every sequence of parameters of the menu up to the stated length, every value of an endpoint and node over a small alphabet, topics of every length, other schemes and texts that are no link; the error must name a fault the link has; trivial without a fault",
            assumptions: beyond,
            run: links::m05,
        },
        Prop {
            id: "M06",
            level: "exploration",
            rule: "every sequence of links of the menu up to the stated length read into the same parameters, compared with a reference after each; and every number of earlier trackers and tiers; trivial for one link",
            assumptions: beyond,
            run: links::m06,
        },
        Prop {
            id: "X01",
            level: "exploration",
            rule: "every sequence of calls of the menu up to the stated length, in a process of its own, each answer compared with that of the same call alone in a new process; trivial never",
            assumptions: &["hidden state shows in sequences of calls as short as those enumerated"],
            run: pure::x01,
        },
    ]);
}
