use crate::runner::{Property, Scenario};

mod broadcast;
mod cancel;
mod channel;
mod compose;
mod growth;
mod maps;
mod mmap;
mod mutable;
mod mvec;
mod nested;
mod signals;
mod stage;
mod vecs;
mod visible;

const fn sc(name: &'static str, weight: u32, run: fn()) -> Scenario {
    Scenario { name, weight, run }
}

pub static PROPERTIES: &[Property] = &[
    Property {
        id: "C01",
        scenarios: &[sc("mutable-converge", 5, mutable::c01), sc("mutable-crowd", 1, mutable::crowd)],
        quick: 3_000_000,
        real: "Mutable, ReadOnlyMutable and their signals, ChangedWaker",
        real_stub: "threads, locks, atomics (simulated std), executors and wakers",
        rule: "Random programs of up to 3 writer threads and up to 4 consumers over one Mutable, in rounds separated by quiescence; and crowds of up to 12 signals created and dropped while a writer changes it.",
    },
    Property {
        id: "C02",
        scenarios: &[sc("mutable-end", 5, mutable::c02), sc("mutable-crowd", 1, mutable::crowd)],
        quick: 3_000_000,
        real: "Mutable, ReadOnlyMutable and their signals, ChangedWaker",
        real_stub: "threads, locks, atomics (simulated std), executors and wakers",
        rule: "Random programs which clone, use and drop the handles of one Mutable from up to 3 threads with up to 4 consumers; and crowds of signals created and dropped meanwhile.",
    },
    Property {
        id: "C03",
        scenarios: &[sc("mutable-cell", 3, mutable::c03), sc("mutable-notify", 1, mutable::c03_notify)],
        quick: 3_000_000,
        real: "Mutable, ReadOnlyMutable and their signals, ChangedWaker",
        real_stub: "threads, locks, atomics (simulated std), executors and wakers",
        rule: "Random programs of up to 3 threads over two Mutables (and clones of them).",
    },
    Property {
        id: "C04",
        scenarios: &[sc("channel", 1, channel::c04)],
        quick: 3_000_000,
        real: "channel: Sender, Receiver, AtomicOption",
        real_stub: "threads, atomics (simulated std), executors and wakers",
        rule: "Random programs of up to 3 sender threads (send, clone, drop, close) and one receiver.",
    },
    Property {
        id: "C05",
        scenarios: &[sc("channel-values", 1, channel::c05)],
        quick: 3_000_000,
        real: "channel: Sender, Receiver, AtomicOption",
        real_stub: "threads, atomics (simulated std), executors and wakers",
        rule: "Random programs of up to 3 sender threads (send, clone, drop, close) and one receiver, with values whose copies are counted.",
    },
    Property {
        id: "C06",
        scenarios: &[sc("broadcaster", 1, broadcast::c06)],
        quick: 3_000_000,
        real: "Broadcaster and its signals, ChangedWaker, Mutable / channel / map as inputs",
        real_stub: "threads, locks, atomics (simulated std), executors and wakers; in a quarter of the runs the input signal",
        rule: "One input, up to 8 initial and up to 10 consumers in all on their own threads, a writer thread, in rounds separated by quiescence.",
    },
    Property {
        id: "C07",
        scenarios: &[sc("cancelable-future", 1, cancel::c07)],
        quick: 3_000_000,
        real: "cancelable_future, CancelableFuture, CancelableFutureHandle",
        real_stub: "threads, locks, atomics (simulated std), executor and waker, the inner future",
        rule: "A task, a canceller thread and a thread which completes (or spuriously wakes) the inner future.",
    },
    Property {
        id: "C08",
        scenarios: &[sc("mutable-vec", 1, mvec::c08)],
        quick: 3_000_000,
        real: "MutableVec, its guards and its signals, to_stream",
        real_stub: "threads, locks (simulated std), executors and wakers",
        rule: "Random programs of up to 3 writer threads per round with up to 3 operations per guard, up to 2 initial and several late consumers.",
    },
    Property {
        id: "C09",
        scenarios: &[sc("vec-copied", 1, mvec::c09_copied), sc("vec-cloned", 1, mvec::c09_cloned)],
        quick: 3_000_000,
        real: "MutableVec, its guards and its signals",
        real_stub: "threads, locks (simulated std), executors and wakers",
        rule: "Random sequences of up to 10 operations against a Vec, watched by up to 5 observers on their own threads.",
    },
    Property {
        id: "C10",
        scenarios: &[sc("btree-map", 2, mmap::c10), sc("btree-map-counted", 1, mmap::c10_counted)],
        quick: 3_000_000,
        real: "MutableBTreeMap, its guards and its signals",
        real_stub: "threads, locks (simulated std), executors and wakers",
        rule: "Random programs of up to 3 writer threads per round with up to 3 operations per guard, up to 2 initial and several late consumers; and random sequential programs with counted keys and values.",
    },
    Property {
        id: "C11",
        scenarios: &[sc("btree-views", 1, mmap::c11)],
        quick: 3_000_000,
        real: "MutableBTreeMap, signal_vec_keys, entries_cloned, signal_vec_entries",
        real_stub: "threads, locks (simulated std), executors and wakers",
        rule: "Random programs of up to 3 writer threads per round with up to 3 operations per guard, up to 2 initial and several late consumers.",
    },
    Property {
        id: "C12",
        scenarios: &[sc("vec-map-filter", 1, vecs::c12)],
        quick: 3_000_000,
        real: "SignalVecExt::map, filter, filter_map; in a third of the runs MutableVec as input",
        real_stub: "threads, locks (simulated std), executors and wakers; the other inputs are scripted",
        rule: "One combinator over one vector which changes at random, in rounds separated by quiescence.",
    },
    Property {
        id: "C13",
        scenarios: &[sc("vec-sort", 1, vecs::c13)],
        quick: 3_000_000,
        real: "SignalVecExt::sort_by_cloned; in a third of the runs MutableVec as input",
        real_stub: "threads, locks (simulated std), executors and wakers; the other inputs are scripted",
        rule: "A vector with many ties which changes at random, in rounds separated by quiescence.",
    },
    Property {
        id: "C14",
        scenarios: &[sc("vec-enumerate", 1, vecs::c14)],
        quick: 3_000_000,
        real: "SignalVecExt::enumerate, Mutable; in a third of the runs MutableVec as input",
        real_stub: "threads, locks (simulated std), executors and wakers; the other inputs are scripted",
        rule: "A vector which changes at random; up to 3 of the indexes have consumers on their own threads.",
    },
    Property {
        id: "C15",
        scenarios: &[sc("vec-chain", 1, vecs::c15)],
        quick: 3_000_000,
        real: "SignalVecExt::chain; in some runs MutableVec as inputs",
        real_stub: "threads, locks (simulated std), executors and wakers; the other inputs are scripted",
        rule: "Two vectors which change at random from two threads, in rounds separated by quiescence.",
    },
    Property {
        id: "C20",
        scenarios: &[sc("vec-aggregate", 1, vecs::c20)],
        quick: 3_000_000,
        real: "SignalVecExt::len, is_empty, sum, to_signal_map, to_signal_cloned; in a third of the runs MutableVec as input",
        real_stub: "threads, locks (simulated std), executors and wakers; the other inputs are scripted",
        rule: "One aggregate over one vector which changes at random, in rounds separated by quiescence.",
    },
    Property {
        id: "C16",
        scenarios: &[sc("vec-flatten", 1, nested::c16)],
        quick: 3_000_000,
        real: "SignalVecExt::flatten; in some runs MutableVec as inputs",
        real_stub: "threads, locks (simulated std), executors and wakers; the other inputs are scripted",
        rule: "A vector of vectors, both of which change at random from two threads, in rounds separated by quiescence.",
    },
    Property {
        id: "C17",
        scenarios: &[sc("vec-map-signal", 1, nested::c17)],
        quick: 3_000_000,
        real: "SignalVecExt::map_signal; in some runs MutableVec, Mutable and channel as inputs",
        real_stub: "threads, locks (simulated std), executors and wakers; the other inputs are scripted",
        rule: "A vector whose values each have a signal; both change at random from two threads, in rounds separated by quiescence.",
    },
    Property {
        id: "C18",
        scenarios: &[sc("vec-filter-signal", 1, nested::c18)],
        quick: 3_000_000,
        real: "SignalVecExt::filter_signal_cloned; in some runs MutableVec, Mutable and channel as inputs",
        real_stub: "threads, locks (simulated std), executors and wakers; the other inputs are scripted",
        rule: "A vector whose values each have a signal; both change at random from two threads, in rounds separated by quiescence.",
    },
    Property {
        id: "C19",
        scenarios: &[sc("vec-delay-remove", 1, nested::c19)],
        quick: 3_000_000,
        real: "SignalVecExt::delay_remove; in a third of the runs MutableVec as input",
        real_stub: "threads, locks (simulated std), executors and wakers; the other inputs are scripted",
        rule: "A vector which changes at random, and a thread which completes the futures of its values in a random order.",
    },
    Property {
        id: "C21",
        scenarios: &[sc("switch-signal-vec", 1, signals::c21)],
        quick: 3_000_000,
        real: "SignalExt::switch_signal_vec; in some runs Mutable, channel and MutableVec as inputs",
        real_stub: "threads, locks, atomics (simulated std), executors and wakers; the other inputs are scripted",
        rule: "A signal which selects one of many vectors, all of which change at random from two threads, in rounds separated by quiescence.",
    },
    Property {
        id: "C22",
        scenarios: &[sc("signal-derived", 1, signals::c22)],
        quick: 3_000_000,
        real: "SignalExt::map, inspect, eq, neq, dedupe, dedupe_cloned, dedupe_map, filter_map, boxed_local, not; in some runs Mutable and channel as inputs",
        real_stub: "threads, locks, atomics (simulated std), executors and wakers; the other inputs are scripted",
        rule: "One combinator over one signal with few different values which changes at random, in rounds separated by quiescence.",
    },
    Property {
        id: "C23",
        scenarios: &[sc("signal-until", 1, signals::c23), sc("for-each", 1, signals::c23_each)],
        quick: 3_000_000,
        real: "SignalExt::stop_if, first, wait_for, to_future, to_stream, for_each of signals, SignalVecs and SignalMaps; in some runs Mutable, channel, MutableVec and MutableBTreeMap as inputs",
        real_stub: "threads, locks, atomics (simulated std), executors and wakers; the other inputs are scripted; the futures of the callbacks are simulated",
        rule: "One adapter over one source which changes at random; a thread completes the futures of the callbacks.",
    },
    Property {
        id: "C24",
        scenarios: &[sc("map-ref", 1, signals::c24)],
        quick: 3_000_000,
        real: "map_ref!, map_mut!, and, or; in some runs Mutable and channel as inputs",
        real_stub: "threads, locks, atomics (simulated std), executors and wakers; the other inputs are scripted",
        rule: "Up to 4 signals which change at random from several threads, in rounds separated by quiescence.",
    },
    Property {
        id: "C25",
        scenarios: &[sc("signal-flatten", 1, signals::c25)],
        quick: 3_000_000,
        real: "SignalExt::flatten, switch; in some runs Mutable and channel as inputs",
        real_stub: "threads, locks, atomics (simulated std), executors and wakers; the other inputs are scripted",
        rule: "A signal of signals, both of which change at random from two threads, in rounds separated by quiescence.",
    },
    Property {
        id: "C26",
        scenarios: &[sc("map-future", 1, signals::c26)],
        quick: 3_000_000,
        real: "SignalExt::map_future; in some runs Mutable and channel as inputs",
        real_stub: "threads, locks, atomics (simulated std), executors and wakers; the other inputs are scripted; the futures are simulated",
        rule: "A signal which changes at random, and a thread which completes the futures in a random order.",
    },
    Property {
        id: "C27",
        scenarios: &[sc("throttle", 2, signals::c27), sc("throttle-clock", 1, signals::c27_clock)],
        quick: 3_000_000,
        real: "SignalExt::throttle; in some runs Mutable and channel as inputs",
        real_stub: "threads, locks, atomics (simulated std), executors and wakers; the other inputs are scripted; the futures and the clock are simulated",
        rule: "A signal which changes at random, with delays which complete at random or by a simulated clock.",
    },
    Property {
        id: "C28",
        scenarios: &[sc("conversions", 3, signals::c28), sc("sample-stream", 1, signals::c28_sample)],
        quick: 3_000_000,
        real: "from_future, from_stream (Signal and SignalVec), to_signal_vec, option, result, always (Signal and SignalVec), sample_stream_cloned",
        real_stub: "threads, locks, atomics (simulated std), executors and wakers; the other inputs are scripted; futures and streams are simulated",
        rule: "One conversion over one or two sources which change at random, in rounds separated by quiescence.",
    },
    Property {
        id: "C29",
        scenarios: &[sc("map-combinators", 1, maps::c29)],
        quick: 3_000_000,
        real: "SignalMapExt::map_value, map_value_signal, key_cloned, SignalMap always; in some runs MutableBTreeMap, Mutable and channel as inputs",
        real_stub: "threads, locks, atomics (simulated std), executors and wakers; the other inputs are scripted",
        rule: "A map (whose values each have a signal) which changes at random from two threads, in rounds separated by quiescence.",
    },
    Property {
        id: "C30",
        scenarios: &[sc("compose", 1, compose::c30)],
        quick: 3_000_000,
        real: "nearly all combinators of Signal, SignalVec and SignalMap, Broadcaster; in some runs Mutable, channel, MutableVec and MutableBTreeMap as inputs",
        real_stub: "threads, locks, atomics (simulated std), executors and wakers; the other inputs are scripted",
        rule: "A random tree of up to 12 combinators over up to 4 inputs which change at random from several threads, with shared inner signals and vectors which change and end on their own, siblings on the same Broadcasters, and transparent wrappers, in rounds separated by quiescence.",
    },
    Property {
        id: "C31",
        scenarios: &[sc("compose-release", 1, compose::c31)],
        quick: 3_000_000,
        real: "nearly all combinators of Signal, SignalVec and SignalMap, Broadcaster; in some runs Mutable, channel, MutableVec and MutableBTreeMap as inputs",
        real_stub: "threads, locks, atomics (simulated std), executors and wakers; the other inputs are scripted",
        rule: "A random tree of up to 6 combinators over up to 4 inputs which change at random from several threads; its task is dropped at a random poll or ends.",
    },
    Property {
        id: "C32",
        scenarios: &[
            sc("weak-channel", 3, visible::channels),
            sc("weak-mutable", 2, visible::mutables),
            sc("weak-broadcaster", 2, visible::broadcasters),
            sc("weak-cancel", 1, visible::cancels),
        ],
        quick: 3_000_000,
        real: "Mutable, channel, Broadcaster and their signals, CancelableFuture",
        real_stub: "threads, locks, atomics and the reference counts of Arc (simulated std, with a weak memory model), executors and wakers",
        rule: "Random programs of up to 3 writer threads and up to 6 consumers over one Mutable, channel or Broadcaster, or a cancelable future, with weak memory.",
    },
    Property {
        id: "C33",
        scenarios: &[sc("growth-cycles", 3, growth::cycles), sc("growth-churn", 2, growth::churn)],
        quick: 300_000,
        real: "nearly all combinators of Signal, SignalVec and SignalMap; Mutable, channel, Broadcaster, MutableVec, MutableBTreeMap, CancelableFuture",
        real_stub: "threads, locks, atomics (simulated std), executors, wakers and the heap, whose blocks are counted",
        rule: "A random tree of combinators over real inputs which go through the same cycle of changes some dozens of times; and sources whose consumers come and go for some dozens of rounds.",
    },
];
