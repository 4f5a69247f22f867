"""The properties: writes properties.jsonl and MANIFEST.json.  Usage: python3 tools/props.py"""
import json, os, re, subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S, V, M = "src/signal/signal.rs", "src/signal_vec.rs", "src/signal_map.rs"
MU, CH, BR, FU, MA, IN = ("src/signal/mutable.rs", "src/signal/channel.rs", "src/signal/broadcaster.rs",
                          "src/future.rs", "src/signal/macros.rs", "src/internal.rs")
AT = "src/atomic.rs"

SCHED = "All interleavings of writer, handle-dropping, waking and polling threads at every lock, atomic, wake and poll; all histories of operations; spurious polls, late polls, changing wakers and cancellation at any point."
TESTS = "The tests poll by hand on one thread in a few fixed orders; they never change, end or cancel a source while it is being polled, and they use a handful of inputs."

# id, title, statement, over, quantifier text, why tests can't, files, [(mechanism, where)], observe_at
P = []
def prop(id, title, statement, files, mechanism, observe, over=("schedules", "histories", "fault_sequences"), text=SCHED, why=TESTS):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism], observe_at=observe,
                     hook_needed="--cfg futures_signals_sim: std's locks, atomics and threads go through a simulated std (src/lib.rs)")))

prop("C01", "Signals of a Mutable converge to its current value with no lost wakeup",
  "However changes to a Mutable interleave with polls of its signals, every live signal's task is woken and ends up having seen the last value once changes stop. A signal yields a value on its first poll, yields only values the Mutable really held, never goes back to an older one, and yields nothing when nothing has changed since its last poll. This holds for signal, signal_cloned and signal_ref, for signals of a ReadOnlyMutable, and for signals created at any time, on any thread.",
  [MU], [("changed flag and waker of each signal", MU), ("notification of all signals after a change", MU)], ["Signal::poll_change", "Waker::wake"])
prop("C02", "Signals of a Mutable end after its last value, exactly when its handles are gone",
  "A signal of a Mutable yields the last value ever set and only then ends, once every handle which can change it is dropped, and its sleeping task is woken for that. It never ends while such a handle is alive, and neither read-only handles keep it open nor does cloning or dropping a handle make it yield a value again. This holds whichever threads clone and drop the handles, also while the signal is being polled.",
  [MU], [("counting of the mutable handles", MU), ("end check in the signals", MU)], ["Signal::poll_change", "Waker::wake"])
prop("C03", "A Mutable is a linearizable cell and no operation on it dead locks",
  "Concurrent get, set, set_neq, set_if, replace, replace_with, swap, lock_mut and lock_ref operations on Mutables behave as if each ran alone at one moment between its call and its return, on its own Mutable or, for swap, on both at once. No combination of them on any threads blocks for ever. An operation which mutates wakes every signal which could show a different value, and one which does not mutate (including set_neq with an equal value, set_if which refuses, and a lock_mut guard which is only read) wakes none. Its Debug and serialized forms show a value which it held at one moment.",
  [MU], [("RwLock around the value", MU), ("two Mutables locked by swap", MU), ("mutated flag of the lock_mut guard", MU)], ["Mutable::get", "Mutable::lock_mut", "Mutable::swap", "Waker::wake"])
prop("C04", "A channel Receiver converges to the last value sent, and ends exactly on close",
  "A Receiver yields its initial or a later value on its first poll, then only values which were sent, never older than one it has yielded, and its task is always woken so that it ends up with the last accepted value. It ends, after that value, exactly when a Sender was closed or all of them were dropped; a channel which is closed never opens again, whatever the Senders do concurrently. A send returns the value as an error exactly when the channel was closed or the Receiver dropped; the value of a send which overlaps the close or that drop may be lost.",
  [CH, AT], [("atomic value slot", AT), ("sender count and waker", CH)], ["Sender::send", "Sender::close", "Signal::poll_change"])
prop("C05", "A channel drops every value exactly once",
  "Every value given to a channel is dropped exactly once: either by whoever received it, by the sender whose send was refused, or by the channel when it was overwritten or never received. This holds for all interleavings of send, close, clone and drop of Senders with polls and the drop of the Receiver.",
  [CH, AT], [("atomic exchange of boxed values", AT)], ["Drop of sent values"])
prop("C06", "Every signal of a Broadcaster converges to its input's value and ends with it",
  "All signals split off a Broadcaster, however many and whenever created, end up with the last value of its input and then end after the input has ended, with no lost wakeup, even when polled on many threads at once or when some are dropped. The input is polled by one thread at a time, never after it has ended, and each signal yields a value on its first poll, only values of the input, in its order, each at most once.",
  [BR], [("shared input and per-signal change flags", BR)], ["Broadcaster::signal", "Broadcaster::signal_cloned", "Broadcaster::signal_ref", "Signal::poll_change"])
prop("C07", "A cancelled CancelableFuture always finishes, and drops its inner future",
  "Once its handle is discarded a cancelable future's task is woken, and the next poll calls the cancel callback exactly once and returns its result, whatever the moment of the discard. If the inner future is ready first its output is returned and the callback is never called; without a discard it never finishes early. The inner future is never polled after it finished or was cancelled, and is dropped exactly once, at the latest when the task finishes or is dropped.",
  [FU], [("cancelled flag and stored waker", FU)], ["Future::poll", "Discard::discard"])
prop("C08", "Replaying the diffs of a MutableVec reproduces it, under any interleaving",
  "A consumer of signal_vec or signal_vec_cloned, created at any time, which applies every VecDiff it receives always holds the contents the MutableVec had at some moment, in order and without skipping any change, and is woken until it holds the current contents. It ends, after the last change, exactly when all handles which can change the vector are gone. Every diff is valid for the contents before it.",
  [V], [("diffs sent to each consumer while the write lock is held", V)], ["SignalVec::poll_vec_change", "MutableVecLockMut"])
prop("C09", "A MutableVec behaves like a Vec, tells every change and nothing else",
  "Every operation on a MutableVec guard (including drain, retain, extend, swap, reverse, truncate and the replacing and updating ones, with any ranges, also partly consumed drains) returns what the same operation on a Vec returns and leaves the same contents, for Copy and for Clone values. Operations which change nothing notify nobody. An index out of bounds panics like that of a Vec, and changes nothing (a swap or move of an index with itself may be a no-op). No value is leaked or dropped twice, in the vector or in the diffs which were never consumed. The Debug and serialized forms show contents held at one moment.",
  [V], [("operations of the write guard", V)], ["MutableVecLockMut", "VecDiff"], over=("histories", "inputs", "schedules"),
  text="All sequences of operations and arguments, with consumers which poll at any point between them.")
prop("C10", "Replaying the diffs of a MutableBTreeMap reproduces it, under any interleaving",
  "Every operation on a MutableBTreeMap guard returns what the same operation on a BTreeMap returns and leaves the same contents. A consumer of signal_map or signal_map_cloned, created at any time, which applies every MapDiff always holds the contents the map had at some moment, in order and without skipping any change, is woken until it holds the current ones, and ends exactly when all handles which can change it are gone; inserts are of absent keys, updates and removals of present ones. Operations which change nothing notify nobody, and no key or value is leaked. The Debug and serialized forms show contents held at one moment.",
  [M], [("diffs sent to each consumer while the write lock is held", M)], ["SignalMap::poll_map_change", "MutableBTreeMapLockMut"])
prop("C11", "The key and entry views of a MutableBTreeMap stay sorted and complete",
  "Replaying signal_vec_keys, signal_vec_entries or entries_cloned always gives exactly the keys, or the entries, of the map at some moment, in key order, without skipping a change of them. The consumer is woken until it shows the current map, and ends when the map's last handle is gone.",
  [M], [("index of a key in the map at the moment of its change", M)], ["SignalVec::poll_vec_change"])
prop("C12", "map, filter and filter_map of a SignalVec show exactly the mapped or kept values",
  "Whenever the consumer of map, filter or filter_map rests, the replayed diffs equal the same function over the input's contents, in the same order, and each diff was valid. The closure is called exactly once for each value which enters the input, in order. The output is woken for every change of the input and ends exactly when the input ends.",
  [V], [("which values are kept, and translation of indexes", V)], ["SignalVec::poll_vec_change"])
prop("C13", "sort_by_cloned is always a stable sort of its input",
  "Whenever the consumer of sort_by_cloned rests, the replayed diffs equal a stable sort of the input's contents by the given comparison, also with many equal values, and each diff was valid. It is woken for every change of the input and ends exactly when the input ends.",
  [V], [("sorted indexes and binary search with index tie-break", V)], ["SignalVec::poll_vec_change"])
prop("C14", "enumerate keeps every index right, from insertion to removal",
  "After each diff of enumerate the index of every value equals its position, for all values which are in the output, and is None for every value which was removed. The signal of each index converges to it with no lost wakeup, ends after None once its value is removed, and values and end follow the input exactly.",
  [V], [("shared index of each value", V)], ["SignalVec::poll_vec_change", "ReadOnlyMutable::signal"])
prop("C15", "chain is the concatenation of its two inputs until both have ended",
  "Whenever the consumer of chain rests, the replayed diffs equal the left input's contents followed by the right one's, for all interleavings of changes of the two, and each diff was valid. It is woken for every change of either input, polls neither after its end, and ends exactly when both have ended.",
  [V], [("offset by the left length", V)], ["SignalVec::poll_vec_change"])
prop("C16", "flatten of a SignalVec is the concatenation of its inner SignalVecs",
  "Whenever the consumer of flatten rests, the replayed diffs equal the concatenation of the contents of the inner vectors which are in the outer one, in its order, whatever the outer does (inserting, replacing, moving, removing whole inner vectors) and however the inner ones change or end. Each diff was valid, every change is woken for, and it ends exactly when the outer and all inner vectors in it have ended.",
  [V], [("length of each inner vector", V)], ["SignalVec::poll_vec_change"])
prop("C17", "map_signal shows the current value of every value's signal",
  "Whenever the consumer of map_signal rests, the replayed diffs equal the latest values of the signals of the input's values, in the input's order. It is woken for a change of the input or of any of the signals, calls its closure once for each value, drops the signals of values which are gone, and ends exactly when the input and all its live signals have ended.",
  [V], [("one signal per value, moved with it", V)], ["SignalVec::poll_vec_change"])
prop("C18", "filter_signal_cloned shows exactly the values whose signal is true",
  "Whenever the consumer of filter_signal_cloned rests, the replayed diffs equal the input's values whose signal is currently true, in the input's order. It is woken for a change of the input or of any signal, calls its closure once for each value, drops the signals of values which are gone, and ends exactly when the input and all its live signals have ended.",
  [V], [("state per value, translation of indexes", V)], ["SignalVec::poll_vec_change"])
prop("C19", "delay_remove keeps removed values exactly until their future completes",
  "Whenever the consumer of delay_remove rests, the values which are in the input appear in its order, and a removed value lingers exactly until its future has completed, then disappears. The future of a value is not polled before the value is removed, is created once for each value, and is dropped with it. It ends exactly when the input has ended and no value lingers.",
  [V], [("per-value future and removing flag", V)], ["SignalVec::poll_vec_change", "Future::poll"])
prop("C20", "len, is_empty, sum, to_signal_map and to_signal_cloned follow their SignalVec",
  "Every value which len, is_empty, sum, to_signal_map or to_signal_cloned yields is that aggregate of the input's contents at that moment, the first poll yields one, and once the input rests the last value is the aggregate of its current contents; is_empty yields no value twice in a row, and none of them yields again without a change of its input. They are woken for every change and end, after the last value, exactly when the input ends.",
  [V], [("draining the input before answering", V)], ["Signal::poll_change"])

prop("C21", "switch_signal_vec shows the SignalVec of its input's last value",
  "Whenever the consumer of switch_signal_vec rests, the replayed diffs equal the contents of the SignalVec which its closure returned for the last value of the input, also when that vector is empty or ends, and each diff was valid. It is woken for every change of the input and of the current vector, calls the closure only for values of the input, in order and at most once for each, drops old vectors, and ends exactly when the input and the current vector have ended.",
  [S], [("switching and clearing of the old values", S)], ["SignalVec::poll_vec_change"])
prop("C22", "map, inspect, eq, neq, not, dedupe* and filter_map of a Signal are exact",
  "For every sequence of values which the input yields, map, inspect, eq, neq, not, dedupe, dedupe_cloned, dedupe_map, filter_map and boxed signals yield exactly the sequence which they are documented to yield: the first poll always yields, eq, neq and the dedupes never yield the same value twice in a row, filter_map yields None at most once and first. Their closures are called once for each value they are given, in order (dedupe_map only for values which differ from the last). They are woken for every change, never poll their input after its end, and end exactly when it ends.",
  [S], [("previous value of dedupe, eq and neq", S), ("first poll of filter_map", S)], ["Signal::poll_change"])
prop("C23", "for_each, to_future, wait_for, first, stop_if and to_stream finish right",
  "for_each of a Signal, SignalVec or SignalMap calls its callback for everything its input yields, in order, never before the future of the last callback has completed, is woken whenever it can go on, and finishes exactly when the input has ended and the last future has completed. to_future gives the last value once the input ends, wait_for the first equal value or None at the end, first yields one value and ends, stop_if yields up to and including the first value which satisfies it, to_stream yields every value. None of them polls its input after its end.",
  [S, V, M], [("future of the last callback", S), ("value kept until the end", S), ("stopped flag", S)], ["Future::poll", "Stream::poll_next", "Signal::poll_change"])
prop("C24", "map_ref, map_mut, and, or always compute from the latest values of all inputs",
  "Every value which map_ref!, map_mut!, and or or yields is computed from the latest values of all of its inputs, the first poll yields one, and its closure is called once for each value. Whatever input changes, on any thread and at any moment, it is woken until it shows the result for the current values. It yields only when one of them has yielded, ends exactly when all inputs have ended, and polls none of them after its end.",
  [MA, IN, S], [("value and end of each input", IN), ("combination of the polls of all inputs", MA)], ["Signal::poll_change"])
prop("C25", "flatten and switch of a Signal show the current inner signal's value",
  "Every value which flatten or switch yields is the latest value of the inner signal of the input's latest value, and once everything rests it shows that. It yields again only when one of these has yielded, is woken for changes of the outer and of the current inner signal, drops the old inner signals, and ends exactly when the outer and the current inner signal have ended, polling neither after its end.",
  [S], [("replacement of the inner signal", S)], ["Signal::poll_change"])
prop("C26", "map_future yields the result of the future of its input's last value",
  "map_future yields None at most once and first, and then only results of the future which belongs to the input's latest value, each once; older futures are dropped and their results never shown. It is woken for every change of the input and when the future completes, calls its closure once for each value, and ends exactly when the input has ended and the last future has completed.",
  [S], [("replacement of the future", S)], ["Signal::poll_change", "Future::poll"])
prop("C27", "throttle limits the rate, never loses the last value and ends",
  "throttle makes one future for each value it yields and yields no other value until that future has completed, so at most one value per interval of a clock. Every value is the input's latest at that moment, the last one is always yielded, none is yielded twice, it is woken for the completion of the future and for changes, ends, after its last value, once the input has ended, and keeps no future which has completed.",
  [S], [("delay future", S)], ["Signal::poll_change", "Future::poll"])
prop("C28", "Futures, Streams and constants convert to Signals and SignalVecs without loss",
  "from_future yields None unless the future is ready at once, then its output, and ends; from_stream yields None unless an item is ready at once, and then always shows the latest item; the SignalVec from_stream pushes every item. to_signal_vec always shows the latest vec, option and result pass their signal through, always yields once and ends, and sample_stream_cloned gives one pair for each item of the stream, with a value of the signal which was current when the item was taken. All are woken for every change of their input and end exactly when it has ended.",
  [S, V], [("future and stream adapters", S), ("sampling of the signal", S), ("stream as pushes", V)], ["Signal::poll_change", "SignalVec::poll_vec_change", "Stream::poll_next"])
prop("C29", "map_value, map_value_signal and key_cloned follow their map",
  "Whenever their consumers rest, the replay of map_value equals the map with its values mapped, that of map_value_signal the map with the current values of the values' signals, and key_cloned shows the value of its key, None while it is absent. Each diff is valid (inserts of absent keys, updates and removals of present ones), closures are called once for each value, signals of values which are gone are dropped, every change of the map or of a signal wakes, and they end exactly when the map, and for map_value_signal all its live signals, have ended.",
  [M], [("signal of each key", M), ("value of the watched key", M)], ["SignalMap::poll_map_change", "Signal::poll_change"])
prop("C30", "Compositions of combinators converge to the composed function, and end",
  "However combinators are stacked and fed by Mutables, channels, Broadcasters, MutableVecs, MutableBTreeMaps or user inputs on several threads, whenever the consumer of the composition rests it shows the composition of their functions applied to the current state of all inputs. No wakeup is lost anywhere in the stack, every diff is valid, no input is polled after it has ended, and the composition ends exactly when all of its inputs have ended.",
  [S, V, M, MU, CH, BR, MA], [("propagation of wakers, diffs and ends through combinators", S), ("propagation through vectors", V), ("propagation through maps", M)], ["Signal::poll_change", "SignalVec::poll_vec_change", "SignalMap::poll_map_change", "Waker::wake"])
prop("C31", "Dropping a consumer at any moment releases its inputs and wakers",
  "Once the task of a composition is gone, dropped before, between or after any of its polls or ended, all inputs, inner signals and futures which it owned are dropped, and changing the inputs goes on without a panic or dead lock. From then on no Mutable, channel or Broadcaster keeps a clone of a waker which the task was polled with, a MutableVec or MutableBTreeMap at most until its next change, and once the inputs are gone too none is left.",
  [S, V, M, MU, CH, BR], [("weak references from the sources to their signals", MU), ("wakers stored in shared state", BR)], ["Drop of signals", "Drop of wakers"])

prop("C32", "What a thread did before a change is visible to whoever is told of it",
  "Whatever a thread did before it changed a Mutable, sent on a channel, closed it, dropped a handle, or discarded a CancelableFutureHandle happens before (in Rust's memory model) the code which is shown that value, the end (which all dropped handles happen before), or the cancellation. Values and wakers are handed between threads without data races and are dropped after all who read them. Also with weak memory, where loads may see overwritten values, no wakeup is lost: signals of Mutables, channels and Broadcasters end up with the last value and end, and a cancelled future finishes.",
  [S, MU, CH, BR, FU, AT], [("atomic orderings of AtomicOption", AT), ("atomic orderings of the channel's sender count", CH), ("atomic orderings of ChangedWaker and Mutable's handle count", MU), ("atomic flag of CancelableFuture", FU)], ["atomic memory orderings", "AtomicOption"])

prop("C33", "Memory does not grow with the history of changes, polls and consumers",
  "While it keeps changing, a Mutable, Broadcaster, MutableVec or MutableBTreeMap whose consumers come and go holds memory for its living consumers and at most a bounded number of those which are gone, whichever kind of changes it is that follow. A channel whose values are replaced unread, and a future, signal or stream which is polled again and again with other wakers, hold a bounded number of values and wakers. And a composition of combinators whose inputs go through the same changes again and again, and whose consumer keeps up, needs no more memory after many such cycles than after a few: replaced values, ended or replaced inner signals, finished or replaced futures, removed entries and earlier wakers are released, not kept until its end.",
  [S, V, M, MU, CH, BR, FU], [("release of dead consumers at the next change", MU), ("release of the wakers of dropped signals", BR), ("removal of closed senders", V), ("release of replaced futures and signals", S)], ["the allocations which are alive at quiescence, counted by the allocator of the simulation"])

#PROPS

# Listed, but not decided by this technique.
NOT = {}

TECH = "deterministic simulation: seeded random schedules and faults over the real code, with an executable reference model as oracle"
NOTE = ("Sampled, not exhaustive: the evidence counts runs, distinct interleavings, faults and probes. Assumes sequential consistency "
        "(weak memory orders are simulated for C32 only), trusts the simulated std's Mutex/RwLock/atomics and the harness's models.")
NOTE32 = ("Sampled, not exhaustive: the evidence counts runs, distinct interleavings, stale loads and other faults. The memory model is a little "
          "stronger than Rust's (stores take effect in schedule order, SeqCst operations are all ordered), so it may miss, but does not invent, "
          "failures. A library which synchronises with primitives the simulation does not know (such as futures' AtomicWaker) is run with strong memory.")

def main():
    src = open(os.path.join(HERE, "sim/harness/src/scen/mod.rs")).read()
    built = re.findall(r'id: "(C\d+)"', src)
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in sorted(P, key=lambda p: p["id"]):
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
    ids = [p["id"] for p in sorted(P, key=lambda p: p["id"])]
    assert set(built) <= set(ids), set(built) - set(ids)
    na = [dict(property=i, reason=NOT.get(i, "no check built yet")) for i in ids if i not in built]
    m = dict(version=1, setup_cmd="./build.sh",
        hooks=dict(guard="--cfg futures_signals_sim and --cfg futures_signals_sim_arc (rustc cfgs, off by default)",
                   enable="/verif/build.sh builds the harness with RUSTFLAGS='--cfg futures_signals_sim --extern futures_signals_sim_std=...', which makes every std:: path of the crate resolve to /verif/sim/std; with --cfg futures_signals_sim_arc also Arc and Weak are simulated",
                   source_commits=["c7bd281e5c29c0fe47eb9cd3cce9f1a6ca23d45a", "0beef7093c172d6fcfdc69eccd5f69c67189847b"]),
        checks=[dict(property=i, quick_cmd=f"./check.sh {i}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}", technique=TECH, level="exploration", level_note=NOTE32 if i == "C32" else NOTE) for i in ids if i in built],
        not_applicable=na,
        notes="VERIF_TIER=thorough multiplies the runs; ./replay.sh FILE replays a violation exactly. known-findings.txt lists the defects found and fixed.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

main()
