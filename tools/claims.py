"""How each claimed property is decided, and why others are not."""

AI = "abstract interpretation of the package's syntax trees (path- and alias-sensitive, loops to a fixpoint)"
TECHNIQUE = {
    "*C": AI + "; typestate automaton of the clock run along every path",
    "*T": AI + "; product of the trigger's code with a typestate automaton over a finite domain of pin values",
    "*E": AI + "; typestate and ordering rules over the effects of most-general client programs",
    "*H": AI + "; ordering and dataflow rules over the effects of most-general client programs",
    "*M": AI + "; effect and dataflow rules over the effects of most-general client programs",
    "*B": AI + "; dataflow and effect rules per operation of a bundle",
    "*D": AI + "; dataflow rule from source to delayed value",
    "*F": AI + "; dataflow and effect rules per operation of a coverage group",
    "*L": AI + "; effect rules on logger configuration",
    "*U": AI + "; value rules on the update functions",
    "*G": AI + "; typestate rule on signals per debugger command",
    "*A": "lint over all modules' syntax trees and the class hierarchy",
}
NOTE = {
    "*": "Holds on every path of the analysed entry points for all values of their data, within the program shapes that "
    "the rule lists in its evidence. Trusts the analyser's model of Python and of the calls that leave the package "
    "(asyncio with first-in first-out scheduling, xspcomm, logging, user code). Obligations the abstraction cannot "
    "decide are reported as undecided and raise no alarm.",
}
NOT_APPLICABLE = {
    "N01": "Progress of arbitrary test coroutines under the event loop's scheduling: it needs a bound on run-time quantities (loops of user code, "
    "wake-ups that asyncio owes) that no static argument over this package gives. The safety half (no cycle is skipped, nothing that can run is left behind) is C01-C05.",
    "N02": "Depends on the iteration order of asyncio's task set, on hash seeds and on the test's own use of randomness, all outside the analysed source. "
    "The orders that the package itself fixes are decided in H01, E01 and C04.",
    "N03": "A bound on memory over the number of cycles is a run-time quantity: what a test leaves pending (unread ports, monitored values, references it keeps) "
    "decides it, and the sources bound none of these. Limits of ports and monitor queues are decided in M05 and H05.",
}
